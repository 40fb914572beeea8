//! Execution of type-erased tasks by the operations registered with the derive
//! macro (bounded): which operation is executed, on what, how often, and what
//! becomes of its result.
use crate::common::*;
use crate::{choose, log, nd, post};
use paladin::operation::*;
use paladin::serializer::Serializer;
use paladin::task::*;
use paladin::{AbortSignal, RemoteExecute};
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::sync::atomic::AtomicBool;
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// What an execution does.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Out {
    Ok,
    Unser,
    Transient(Strat, bool),
    Fatal(bool),
    Panic,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Strat {
    Now(u32),
    After(u32, u64),
}
impl Strat {
    fn of(self) -> RetryStrategy {
        let n = |m| std::num::NonZeroU32::new(m).unwrap();
        match self {
            Strat::Now(m) => RetryStrategy::Immediate { max_retries: n(m) },
            Strat::After(m, s) => RetryStrategy::After { max_retries: n(m), duration: Duration::from_secs(s) },
        }
    }
    fn max(self) -> usize {
        match self {
            Strat::Now(m) | Strat::After(m, _) => m as usize,
        }
    }
    fn secs(self) -> u64 {
        match self {
            Strat::Now(_) => 0,
            Strat::After(_, s) => s,
        }
    }
}
fn fs(ignore: bool) -> FatalStrategy {
    if ignore {
        FatalStrategy::Ignore
    } else {
        FatalStrategy::Terminate
    }
}
/// What the executions of the run do, and what they were called with.
struct World {
    script: VecDeque<Out>,
    calls: Vec<Call>,
}
#[derive(Clone, Debug, PartialEq)]
struct Call {
    op: &'static str,
    state: (u32, String),
    input: Input,
    abort: Option<usize>,
}
static WORLD: Mutex<World> = Mutex::new(World { script: VecDeque::new(), calls: Vec::new() });
fn world() -> std::sync::MutexGuard<'static, World> {
    WORLD.lock().unwrap_or_else(|e| e.into_inner())
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Input(u64, Vec<u16>, Option<String>);
/// The operation's name and state, its input, and (in `fail`) a value that
/// cannot be serialized.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Output(String, (u32, String), Input, Option<crate::ops::X>);

fn ptr(a: &AbortSignal) -> Option<usize> {
    a.as_ref().map(|a| Arc::as_ptr(a) as usize)
}
pub fn execute(op: &'static str, state: (u32, String), input: Input, abort: AbortSignal) -> Result<Output> {
    let mut w = world();
    w.calls.push(Call { op, state: state.clone(), input: input.clone(), abort: ptr(&abort) });
    let k = w.calls.len();
    let o = w.script.pop_front().unwrap_or(Out::Ok);
    drop(w);
    match o {
        Out::Ok => Ok(Output(op.into(), state, input, None)),
        Out::Unser => Ok(Output(op.into(), state, input, Some(crate::ops::X(crate::ops::UNSER)))),
        Out::Transient(s, i) => Err(TransientError::from_str(&format!("attempt {k}"), s.of(), fs(i)).into()),
        Out::Fatal(i) => Err(FatalError::from_str(&format!("attempt {k}"), fs(i)).into()),
        Out::Panic => panic!("the operation panics"),
    }
}
macro_rules! ops {
    ($($m:ident { $($n:ident),* })*) => {
        $(pub mod $m {
            use super::*;
            $(
                #[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
                pub struct $n(pub u32, pub String);
                impl Operation for $n {
                    type Input = Input;
                    type Output = Output;
                    fn execute(&self, x: Input, abort: AbortSignal) -> Result<Output> {
                        super::execute(concat!(stringify!($m), "::", stringify!($n)), (self.0, self.1.clone()), x, abort)
                    }
                }
            )*
        })*
        fn all() -> Vec<Case> {
            vec![$($(Case {
                name: concat!(stringify!($m), "::", stringify!($n)),
                id: $m::$n::ID,
                task: |key, st, x, md, s| {
                    let op = $m::$n(st.0, st.1);
                    Task { routing_key: key, metadata: md, op: &op, input: x }.as_any_task(s)
                },
                result: |r| r.into_task_result::<$m::$n, Meta>().map(|t| (t.metadata, t.output)),
            }),*),*]
        }
    };
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Meta(usize, String);
struct Case {
    name: &'static str,
    id: u8,
    task: fn(String, (u32, String), Input, Meta, Serializer) -> anyhow::Result<AnyTask>,
    result: fn(AnyTaskResult) -> anyhow::Result<(Meta, Output)>,
}
// Operations of equal and of different names in modules of different names: the
// order of the registry is that of the linker.
ops! {
    z { Zeta, Alpha, Mid }
    alpha { Alpha, Zeta, Other }
    m { One, Two, Three, Four, Five, Six }
    beta { Alpha, Last }
}
/// Kinds of operations.
#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone, Copy)]
pub struct Unit;
impl Operation for Unit {
    type Input = u8;
    type Output = u16;
    fn execute(&self, x: u8, _: AbortSignal) -> Result<u16> {
        Ok(x as u16 * 257)
    }
}
#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone, Copy)]
pub enum Choice {
    Add(i64),
    Neg { twice: bool },
    Zero,
}
impl Operation for Choice {
    type Input = i64;
    type Output = i64;
    fn execute(&self, x: i64, _: AbortSignal) -> Result<i64> {
        Ok(match self {
            Choice::Add(k) => x.wrapping_add(*k),
            Choice::Neg { twice: true } => x,
            Choice::Neg { twice: false } => x.wrapping_neg(),
            Choice::Zero => 0,
        })
    }
}
#[derive(Serialize, Deserialize, RemoteExecute, Debug)]
pub struct Sub;
impl Monoid for Sub {
    type Elem = Vec<u8>;
    fn empty(&self) -> Vec<u8> {
        vec![]
    }
    fn combine(&self, mut a: Vec<u8>, b: Vec<u8>, abort: AbortSignal) -> Result<Vec<u8>> {
        if abort.is_some_and(|a| a.load(std::sync::atomic::Ordering::SeqCst)) {
            return Err(FatalError::from_str("aborted", FatalStrategy::Ignore).into());
        }
        a.extend(b);
        Ok(a)
    }
}
/// Run on a runtime with virtual time; the result and the time it took.
fn exec(t: AnyTask, abort: AbortSignal) -> (Result<AnyTaskOutput>, Duration) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    rt.block_on(async {
        let b = tokio::time::Instant::now();
        let r = t.remote_execute(abort).await;
        (r, b.elapsed())
    })
}
fn quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}
fn ids() -> Vec<Case> {
    let a = all();
    for (i, x) in a.iter().enumerate() {
        for y in &a[..i] {
            post!(x.id != y.id, "operations have different identities");
        }
        post!(![Unit::ID, Choice::ID, Sub::ID].contains(&x.id), "operations have different identities");
    }
    a
}
fn any_serializer() -> Serializer {
    if nd::any_bool() {
        Serializer::Cbor
    } else {
        Serializer::Postcard
    }
}
fn any_abort() -> AbortSignal {
    nd::any_bool().then(|| Arc::new(AtomicBool::new(nd::any_bool())))
}
/// Executes the tasks of `c` with the given script and checks everything.
fn case(c: &Case, s: Serializer, st: (u32, String), x: Input, md: Meta, script: &[Out]) {
    log(format!("{} {script:?}", c.name));
    let abort = any_abort();
    {
        let mut w = world();
        w.calls.clear();
        w.script = script.iter().copied().collect();
    }
    let t = (c.task)("some key".into(), st.clone(), x.clone(), md.clone(), s).expect("serializable");
    let meta = t.metadata.clone();
    quiet();
    let (r, took) = exec(t, abort.clone());
    let calls = std::mem::take(&mut world().calls);
    let want = Call { op: c.name, state: st.clone(), input: x.clone(), abort: ptr(&abort) };
    for k in &calls {
        post!(k.op == want.op, "the operation the task was made from is executed");
        post!(k.state == want.state, "the operation has the state it was sent with");
        post!(k.input == want.input, "it is executed on the input of the task");
        post!(k.abort == want.abort, "it is given the abort signal");
    }
    // the number of executions
    let at = |i: usize| script.get(i).copied().unwrap_or(Out::Ok);
    let (n, pause) = match at(0) {
        Out::Transient(s, _) => {
            // from then on as C13 says: an attempt, and up to `max` retries of it
            let mut k = 1;
            while k <= s.max() && at(k) != Out::Ok {
                k += 1;
            }
            (k + 1, s.secs() * (k as u64 - 1))
        }
        _ => (1, 0),
    };
    post!(calls.len() >= n, "a transient error is retried as its strategy says");
    post!(calls.len() <= n, "an operation is executed once, and again only after a transient error, as its strategy says");
    post!(
        took >= Duration::from_secs(pause) && took <= Duration::from_millis(pause * 1000 + 2 * n as u64),
        "retries are delayed as the strategy says, and only those"
    );
    match (at(n - 1), r) {
        (Out::Ok, Ok(o)) => {
            post!(o.metadata == meta, "the metadata of the task comes with the output, unchanged");
            let (m, o) = match (c.result)(AnyTaskResult::Ok(o)) {
                Ok(x) => x,
                Err(_) => panic!("[P] the output can be read back"),
            };
            post!(m == md, "the metadata of the task comes with the output, unchanged");
            post!(o == Output(c.name.into(), st, x, None), "the output of the operation is returned");
        }
        (Out::Ok, Err(_)) => post!(false, "the output of the operation is returned"),
        (_, Ok(_)) => post!(false, "a failed execution is an error"),
        (last, Err(e)) => {
            post!(matches!(e, OperationError::Fatal { .. }), "the error that is returned is fatal");
            let strat = match at(0) {
                Out::Transient(_, i) | Out::Fatal(i) => i,
                _ => false,
            };
            post!(
                matches!(e.fatal_strategy(), FatalStrategy::Ignore) == strat,
                "the fatal strategy is that of the error, and to terminate for a panic or an unserializable output"
            );
            if let Out::Transient(..) | Out::Fatal(_) = last {
                post!(e.as_err().to_string().contains(&format!("attempt {n}")), "the last error is returned");
            }
        }
    }
}
/// Every operation, every kind of result.
fn each() {
    let cases = ids();
    let c = &cases[choose(cases.len())];
    let o = [Out::Ok, Out::Unser, Out::Fatal(false), Out::Fatal(true), Out::Panic][choose(5)];
    case(c, any_serializer(), (7, "st".into()), Input(1 << 40, vec![1, 65535], None), Meta(usize::MAX, "m".into()), &[o]);
}
/// Retries.
fn retried() {
    let cases = ids();
    let s = [Strat::Now(1), Strat::Now(3), Strat::After(2, 5)][choose(3)];
    let first = Out::Transient(s, nd::any_bool());
    let mut script = vec![first];
    // what a retried attempt fails with has no influence on the retries
    let again = [first, Out::Transient(Strat::After(9, 100), true), Out::Transient(Strat::Now(1), false)][choose(3)];
    for _ in 0..choose(6) {
        script.push(again)
    }
    case(&cases[5], any_serializer(), (0, String::new()), Input(0, vec![], Some("x".into())), Meta(0, String::new()), &script);
}
/// Values of all sizes.
fn rand_values() {
    let cases = ids();
    let c = &cases[choose(cases.len())];
    let word = |k: usize| ["", "é", "long \u{1F980} ", "x"][choose(4)].repeat([1, 3, 1000][k % 3]);
    let st = ([0, 1, 127, 128, u32::MAX][choose(5)], word(choose(3)));
    let x = Input(
        [0, 255, 256, u64::MAX][choose(4)],
        (0..[0, 1, 23, 24, 300, 70_000][choose(6)]).map(|i| i as u16).collect(),
        if choose(2) == 0 { None } else { Some(word(choose(3))) },
    );
    let md = Meta([0, 1, 1 << 33, usize::MAX][choose(4)], word(choose(3)));
    let script = match choose(4) {
        0 => vec![Out::Fatal(choose(2) == 0)],
        1 => vec![Out::Transient(Strat::Now(1 + choose(9) as u32), choose(2) == 0); choose(12)],
        _ => vec![],
    };
    case(c, any_serializer(), st, x, md, &script);
}
/// Unit, enum and monoid operations.
fn kinds() {
    let s = any_serializer();
    fn one<Op: Operation>(op: &Op, x: Op::Input, s: Serializer, abort: AbortSignal) -> Result<Op::Output> {
        let t = Task { routing_key: "k".into(), metadata: 9u64, op, input: x }.as_any_task(s).expect("serializable");
        let r = exec(t, abort).0?;
        match AnyTaskResult::Ok(r).into_task_result::<Op, u64>() {
            Ok(t) => {
                post!(t.metadata == 9, "the metadata of the task comes with the output, unchanged");
                Ok(t.output)
            }
            Err(_) => panic!("[P] the output can be read back"),
        }
    }
    match choose(3) {
        0 => post!(matches!(one(&Unit, 255, s, None), Ok(65535)), "the output of the operation is returned"),
        1 => {
            let x = [0i64, -5, i64::MAX][choose(3)];
            let op = [Choice::Add(-3), Choice::Neg { twice: true }, Choice::Neg { twice: false }, Choice::Zero][choose(4)];
            let want = op.execute(x, None).ok().unwrap();
            post!(matches!(one(&op, x, s, None), Ok(y) if y == want), "the output of the operation is returned")
        }
        _ => {
            let flag = nd::any_bool();
            let r = one(&Sub, (vec![1, 2], vec![3]), s, Some(Arc::new(AtomicBool::new(flag))));
            if flag {
                post!(r.is_err(), "it is given the abort signal")
            } else {
                post!(matches!(r, Ok(v) if v == [1, 2, 3]), "a monoid combines its arguments in order")
            }
        }
    }
}
/// Bytes that cannot be decoded, unknown operations.
fn malformed() {
    let cases = ids();
    let c = &cases[choose(cases.len())];
    let s = any_serializer();
    let mut t = (c.task)("k".into(), (1, "abc".into()), Input(5, vec![1, 2, 3], Some("def".into())), Meta(1, "m".into()), s).expect("serializable");
    let cut = |b: &bytes::Bytes| {
        let n = choose(b.len());
        log(format!("the first {n} bytes"));
        b.slice(..n)
    };
    match choose(4) {
        0 => t.op = cut(&t.op),
        1 => t.input = cut(&t.input),
        2 => t.input = bytes::Bytes::from_static(&[0xff; 40]),
        _ => {
            let used: Vec<u8> = cases.iter().map(|c| c.id).chain([Unit::ID, Choice::ID, Sub::ID]).collect();
            // identities nothing in this program has
            let free = [200u8, 249, 255];
            t.operation_id = free[choose(free.len())];
            nd::assume(!used.contains(&t.operation_id));
        }
    }
    {
        let mut w = world();
        w.calls.clear();
        w.script.clear();
    }
    let r = exec(t, None).0;
    post!(world().calls.is_empty(), "an operation is not executed on what cannot be decoded");
    match r {
        Ok(_) => post!(false, "undecodable bytes and unknown operations are errors"),
        Err(e) => post!(
            matches!(e, OperationError::Fatal { strategy: FatalStrategy::Terminate, .. }),
            "undecodable bytes and unknown operations are fatal and terminate the job"
        ),
    }
}
/// Several tasks at once: their results are not exchanged.
fn rand_concurrent() {
    let cases = ids();
    {
        let mut w = world();
        w.calls.clear();
        w.script.clear();
    }
    let n = 2 + choose(12);
    let js: Vec<_> = (0..n).map(|i| (choose(cases.len()), i as u32, any_serializer())).collect();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let input = |i: u32| Input(i as u64, vec![i as u16; i as usize], None);
    let rs = rt.block_on(futures::future::join_all(js.iter().map(|(k, i, s)| {
        (cases[*k].task)("k".into(), (*i, "s".into()), input(*i), Meta(*i as usize, "m".into()), *s).expect("serializable").remote_execute(None)
    })));
    for ((k, i, _), r) in js.iter().zip(rs) {
        match r.map(|o| (cases[*k].result)(AnyTaskResult::Ok(o))) {
            Ok(Ok((m, o))) => {
                post!(m == Meta(*i as usize, "m".into()), "the metadata of the task comes with the output, unchanged");
                post!(o == Output(cases[*k].name.into(), (*i, "s".into()), input(*i), None), "the output of the operation is returned");
            }
            _ => post!(false, "the output of the operation is returned"),
        }
    }
    post!(world().calls.len() == n, "every task is executed once");
}
crate::harnesses![rand_concurrent, each, retried, rand_values, kinds, malformed];
