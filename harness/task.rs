//! Contracts of the type-erased forms of tasks and results.
use super::operation::any_format;
use crate::common::*;
use crate::nd;
use bytes::Bytes;
use paladin::operation::*;
use paladin::serializer::Serializer;
use paladin::task::*;
use paladin::AbortSignal;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct Op(u8);
impl RemoteExecute for Op {
    const ID: u8 = 200;
}
impl Operation for Op {
    type Input = (u8, u8);
    type Output = (u8, u8);
    fn execute(&self, x: (u8, u8), _: AbortSignal) -> Result<(u8, u8)> {
        Ok(x)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone, Copy)]
struct Meta(u8, u8);

#[cfg(not(kani))]
fn any_key() -> String {
    any_text()
}
#[cfg(kani)]
fn any_key() -> String {
    let mut s = String::new();
    let n = nd::below(3);
    if n > 0 {
        s.push((b'a' + nd::small_u8(2) % 26) as char);
    }
    if n > 1 {
        s.push('-');
    }
    s
}
fn same(a: &Serializer, b: &Serializer) -> bool {
    std::mem::discriminant(a) == std::mem::discriminant(b)
}

/// as_any_task keeps everything.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(8))]
#[cfg_attr(kani, kani::stub(Serializer::to_bytes, formats::to_bytes))]
#[cfg_attr(kani, kani::stub(Serializer::from_bytes, formats::from_bytes))]
fn as_any_task() {
    let s = any_format();
    let op = Op(nd::any_u8());
    let (m, x) = (Meta(nd::any_u8(), 3), (nd::any_u8(), nd::any_u8()));
    let k = ManuallyDrop::new(any_key());
    let t = ManuallyDrop::new(Task { routing_key: (*k).clone(), metadata: m, op: &op, input: x });
    let r = ManuallyDrop::new(t.as_any_task(s));
    match &*r {
        Ok(a) => {
            post!(a.routing_key == *k, "the routing key is kept");
            post!(a.operation_id == Op::ID, "the operation is identified");
            post!(same(&a.serializer, &s), "the serializer is recorded");
            let d = ManuallyDrop::new(a.serializer.from_bytes::<Meta>(&a.metadata));
            post!(matches!(&*d, Ok(d) if *d == m), "the metadata is kept");
            let d = ManuallyDrop::new(a.serializer.from_bytes::<Op>(&a.op));
            post!(matches!(&*d, Ok(d) if *d == op), "the operation is kept");
            let d = ManuallyDrop::new(a.serializer.from_bytes::<(u8, u8)>(&a.input));
            post!(matches!(&*d, Ok(d) if *d == x), "the input is kept");
        }
        Err(_) => post!(false, "a serializable task can be erased"),
    }
}
/// A successful result is converted back to what it was made from.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(8))]
#[cfg_attr(kani, kani::stub(Serializer::to_bytes, formats::to_bytes))]
#[cfg_attr(kani, kani::stub(Serializer::from_bytes, formats::from_bytes))]
fn ok_result() {
    let s = any_format();
    let (m, y) = (Meta(nd::any_u8(), nd::any_u8()), (nd::any_u8(), nd::any_u8()));
    let a = AnyTaskResult::Ok(AnyTaskOutput {
        metadata: s.to_bytes(&m).ok().unwrap(),
        output: s.to_bytes(&y).ok().unwrap(),
        serializer: s,
    });
    let r: TaskResult<Op, Meta> = if nd::any_bool() { a.into_task_result() } else { a.into() };
    post!(
        matches!(&r, Ok(TaskOutput { metadata, output }) if *metadata == m && *output == y),
        "the metadata and the output are recovered"
    );
    forget(r);
}
/// Malformed metadata or output is an error.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(8))]
#[cfg_attr(kani, kani::stub(Serializer::to_bytes, formats::to_bytes))]
#[cfg_attr(kani, kani::stub(Serializer::from_bytes, formats::from_bytes))]
fn malformed_result() {
    let s = any_format();
    let which = nd::any_bool();
    let good = s.to_bytes(&(1u8, 2u8)).ok().unwrap();
    let (metadata, output) = if which { (good, Bytes::new()) } else { (Bytes::new(), good) };
    let a = AnyTaskResult::Ok(AnyTaskOutput { metadata, output, serializer: s });
    let r: TaskResult<Op, Meta> = a.into_task_result();
    post!(r.is_err(), "bytes that do not decode are an error");
    forget(r);
}
/// A failed result is an error with its message.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(8))]
#[cfg_attr(kani, kani::stub(Serializer::to_bytes, formats::to_bytes))]
#[cfg_attr(kani, kani::stub(Serializer::from_bytes, formats::from_bytes))]
fn err_result() {
    let k = any_key();
    let k2 = ManuallyDrop::new(k.clone());
    let r: TaskResult<Op, Meta> = AnyTaskResult::Err(k).into_task_result();
    post!(r.is_err(), "a failed result is an error");
    #[cfg(not(kani))]
    if let Err(e) = &r {
        post!(e.to_string() == *k2, "the error has the message of the result");
        post!(format!("{e:#}") == *k2, "the error has the message of the result, and no other");
    }
    forget(r);
}
/// The erased forms survive the wire.
#[cfg(not(kani))]
fn rand_wire() {
    let (s, w) = (any_format(), any_format());
    let op = Op(nd::any_u8());
    let t = Task { routing_key: any_key(), metadata: Meta(nd::any_u8(), 1), op: &op, input: (nd::any_u8(), 0) };
    let a = t.as_any_task(s).unwrap();
    let b: AnyTask = w.from_bytes(&w.to_bytes(&a).unwrap()).unwrap();
    post!(
        a.routing_key == b.routing_key
            && a.metadata == b.metadata
            && a.op == b.op
            && a.input == b.input
            && a.operation_id == b.operation_id
            && same(&a.serializer, &b.serializer),
        "a task survives the wire"
    );
    let r = if nd::any_bool() {
        AnyTaskResult::Ok(AnyTaskOutput { metadata: a.metadata.clone(), output: a.input.clone(), serializer: s })
    } else {
        AnyTaskResult::Err(any_key())
    };
    let q: AnyTaskResult = w.from_bytes(&w.to_bytes(&r).unwrap()).unwrap();
    post!(
        match (&r, &q) {
            (AnyTaskResult::Ok(a), AnyTaskResult::Ok(b)) =>
                a.metadata == b.metadata && a.output == b.output && same(&a.serializer, &b.serializer),
            (AnyTaskResult::Err(a), AnyTaskResult::Err(b)) => a == b,
            _ => false,
        },
        "a result survives the wire"
    );
}
#[cfg(not(kani))]
crate::harnesses![as_any_task, ok_result, malformed_result, err_result, rand_wire];
