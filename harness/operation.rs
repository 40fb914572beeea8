//! Contracts of Operation's byte-level methods and of monoids as operations.
use crate::common::*;
use crate::nd;
use paladin::operation::*;
use paladin::serializer::Serializer;
use paladin::AbortSignal;
use serde::{Deserialize, Serialize};
use std::sync::atomic::AtomicBool;
use std::sync::Arc;

pub fn any_format() -> Serializer {
    if nd::any_bool() {
        Serializer::Postcard
    } else {
        Serializer::Cbor
    }
}
/// The proofs over bytes are for postcard; ciborium is beyond the verifier's reach.
pub fn any_serializer() -> Serializer {
    if cfg!(kani) {
        Serializer::Postcard
    } else {
        any_format()
    }
}
static mut CALLS: usize = 0;
static mut ABORT: Option<*const AtomicBool> = None;
static mut GOT: (u8, u8) = (0, 0);
static mut OUTCOME: u8 = 0;
fn called(a: u8, b: u8, abort: &AbortSignal) {
    unsafe {
        CALLS += 1;
        GOT = (a, b);
        ABORT = abort.as_ref().map(Arc::as_ptr);
    }
}
fn outcome<T>(v: T) -> Result<T> {
    match unsafe { OUTCOME } {
        0 => Ok(v),
        1 => Err(FatalError::from_anyhow(err(), FatalStrategy::Ignore).into()),
        _ => Err(TransientError::from_anyhow(err(), RetryStrategy::default(), FatalStrategy::Ignore).into()),
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct Op(u8, u8);
impl RemoteExecute for Op {
    const ID: u8 = 250;
}
impl Operation for Op {
    type Input = u8;
    type Output = (u8, u8);
    fn execute(&self, x: u8, abort: AbortSignal) -> Result<(u8, u8)> {
        called(self.0, x, &abort);
        forget(abort);
        outcome((self.0.wrapping_sub(x), x))
    }
}
#[derive(Serialize, Deserialize, Debug)]
struct Mon;
impl RemoteExecute for Mon {
    const ID: u8 = 251;
}
impl Monoid for Mon {
    type Elem = u8;
    fn empty(&self) -> u8 {
        7
    }
    fn combine(&self, a: u8, b: u8, abort: AbortSignal) -> Result<u8> {
        called(a, b, &abort);
        forget(abort);
        outcome(a.wrapping_sub(b))
    }
}
fn any_abort() -> (AbortSignal, Option<*const AtomicBool>) {
    if nd::any_bool() {
        let a = Arc::new(AtomicBool::new(nd::any_bool()));
        let p = Arc::as_ptr(&a);
        (Some(a), Some(p))
    } else {
        (None, None)
    }
}
fn start() -> u8 {
    let o = nd::below(3) as u8;
    unsafe {
        CALLS = 0;
        ABORT = None;
        OUTCOME = o;
    }
    o
}
fn calls() -> usize {
    unsafe { CALLS }
}
fn check<T>(o: u8, r: &Result<T>) {
    post!(calls() == 1, "the operation is executed once");
    match r {
        Ok(_) => post!(o == 0, "a failed operation is an error"),
        Err(OperationError::Fatal { strategy, .. }) => {
            post!(o == 1 && matches!(strategy, FatalStrategy::Ignore), "the error of the operation is passed on")
        }
        Err(OperationError::Transient { fatal_strategy, .. }) => {
            post!(o == 2 && matches!(fatal_strategy, FatalStrategy::Ignore), "the error of the operation is passed on")
        }
    }
    cover!(r.is_ok(), "succeeds");
    cover!(r.is_err(), "fails");
}

/// Execution on serialized input.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(8))]
#[cfg_attr(kani, kani::stub(Serializer::to_bytes, formats::to_bytes))]
#[cfg_attr(kani, kani::stub(Serializer::from_bytes, formats::from_bytes))]
fn execute_as_bytes() {
    let s = any_format();
    let (op, x) = (Op(nd::any_u8(), nd::any_u8()), nd::any_u8());
    let bytes = ManuallyDrop::new(s.to_bytes(&x).ok().unwrap());
    let o = start();
    let (abort, p) = any_abort();
    let r = op.execute_as_bytes(s, &bytes, abort);
    check(o, &r);
    post!(unsafe { GOT } == (op.0, x), "the operation is executed on the decoded input");
    post!(unsafe { ABORT } == p, "the operation gets the abort signal");
    if let Ok(b) = &r {
        let v: anyhow::Result<(u8, u8)> = s.from_bytes(b);
        post!(matches!(&v, Ok(v) if *v == (op.0.wrapping_sub(x), x)), "the output is serialized with the same serializer");
        forget(v);
    }
    forget(r);
}
/// Bytes that do not decode.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(8))]
#[cfg_attr(kani, kani::stub(Serializer::to_bytes, formats::to_bytes))]
#[cfg_attr(kani, kani::stub(Serializer::from_bytes, formats::from_bytes))]
fn malformed() {
    let s = any_format();
    let op = Op(nd::any_u8(), 0);
    start();
    let r = op.execute_as_bytes(s, &[], None);
    post!(
        matches!(&r, Err(OperationError::Fatal { strategy: FatalStrategy::Terminate, .. })),
        "malformed input is a fatal error"
    );
    post!(calls() == 0, "the operation is not executed on malformed input");
    forget(r);
    let r = Op::from_bytes(s, &[]);
    post!(
        matches!(&r, Err(OperationError::Fatal { strategy: FatalStrategy::Terminate, .. })),
        "a malformed operation is a fatal error"
    );
    forget(r);
    let r = op.input_from_bytes(s, &[]);
    post!(
        matches!(&r, Err(OperationError::Fatal { strategy: FatalStrategy::Terminate, .. })),
        "malformed input is a fatal error"
    );
    forget(r);
}
/// Operations, inputs and outputs round-trip.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(8))]
#[cfg_attr(kani, kani::stub(Serializer::to_bytes, formats::to_bytes))]
#[cfg_attr(kani, kani::stub(Serializer::from_bytes, formats::from_bytes))]
fn round_trip() {
    let s = any_format();
    let op = Op(nd::any_u8(), nd::any_u8());
    let b = ManuallyDrop::new(op.as_bytes(s).ok().unwrap());
    let r = Op::from_bytes(s, &b);
    post!(matches!(&r, Ok(o) if *o == op), "an operation read back from its bytes is the same");
    forget(r);
    let y = (nd::any_u8(), nd::any_u8());
    let b = ManuallyDrop::new(op.output_to_bytes(s, y).ok().unwrap());
    let r: anyhow::Result<(u8, u8)> = s.from_bytes(&b);
    post!(matches!(&r, Ok(v) if *v == y), "the output is serialized as it is");
    forget(r);
    let x = nd::any_u8();
    let b = ManuallyDrop::new(s.to_bytes(&x).ok().unwrap());
    let r = op.input_from_bytes(s, &b);
    post!(matches!(&r, Ok(v) if *v == x), "the input is decoded as it is");
    forget(r);
}
/// A monoid as an operation.
#[cfg_attr(kani, kani::proof)]
fn monoid() {
    let (a, b) = (nd::any_u8(), nd::any_u8());
    let o = start();
    let (abort, p) = any_abort();
    let r = Operation::execute(&Mon, (a, b), abort);
    check(o, &r);
    post!(unsafe { GOT } == (a, b), "the pair is combined in order");
    post!(unsafe { ABORT } == p, "the operation gets the abort signal");
    if let Ok(v) = &r {
        post!(*v == a.wrapping_sub(b), "the result of combining is returned");
    }
    forget(r);
}
crate::harnesses![execute_as_bytes, malformed, round_trip, monoid];
