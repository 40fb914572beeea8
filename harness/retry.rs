//! Contracts of RetryStrategy and OperationError::retry.
use crate::common::*;
use crate::nd;
use paladin::operation::*;
use std::cell::Cell;
use std::future::Future;
use std::task::Poll;
use std::num::NonZeroU32;
use std::time::Duration;

/// At most this many retries are unrolled.
const MAX: u32 = 2;
/// Any `max_retries`.
fn max() -> (u32, NonZeroU32) {
    let m = nd::small(MAX as usize + 3) as u32;
    nd::assume(m > 0);
    (m, NonZeroU32::new(m).unwrap())
}
/// A future that is ready at once (small to the verifier: it has no state).
fn now<'a, T>(mut f: impl FnMut() -> T + 'a) -> impl Future<Output = T> + 'a {
    std::future::poll_fn(move |_| Poll::Ready(f()))
}
/// An operation that fails `fails` times and then succeeds.
struct Op {
    fails: u32,
    calls: Cell<u32>,
    traced: Cell<u32>,
    last_traced: Cell<u32>,
}
impl Op {
    /// Fails any number of times, but leads to at most `MAX` retries (of `m`).
    fn new(m: u32) -> Self {
        let fails = nd::small(MAX as usize + 3) as u32;
        nd::assume(m <= MAX || fails <= MAX);
        Op { fails, calls: Cell::new(0), traced: Cell::new(0), last_traced: Cell::new(0) }
    }
    fn call(&self) -> std::result::Result<u32, u32> {
        let n = self.calls.get() + 1;
        self.calls.set(n);
        if n <= self.fails {
            Err(n)
        } else {
            Ok(n + 100)
        }
    }
    fn trace(&self, e: u32) {
        self.traced.set(self.traced.get() + 1);
        self.last_traced.set(e);
    }
}
fn check(o: &Op, r: std::result::Result<u32, u32>, m: u32, traced: bool) {
    if o.fails <= m {
        post!(r == Ok(o.fails.wrapping_add(101)), "the result of the first successful attempt is returned");
        post!(o.calls.get() == o.fails + 1, "attempts stop at the first success");
    } else {
        post!(r == Err(m + 1), "the last error is returned");
        post!(o.calls.get() == m + 1, "exactly max_retries retries are made");
    }
    let retries = if o.fails < m { o.fails } else { m };
    if traced {
        post!(o.traced.get() == retries, "every failed attempt that is retried is traced, once");
        post!(retries == 0 || o.last_traced.get() == retries, "the error of the attempt is traced");
    }
    cover!(r.is_ok() && o.fails > 0, "recovers");
    cover!(r.is_err(), "gives up");
}

/// Only exponential strategies take part in backoff (the contract of
/// `into_backoff`, see `no_backoff`): a strategy of another kind never gets there.
#[cfg(kani)]
fn no_backoff_here(_: RetryStrategy) -> anyhow::Result<backoff::ExponentialBackoff> {
    panic!("[P] only exponential strategies back off")
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::stub(paladin::operation::RetryStrategy::into_backoff, no_backoff_here))]
#[cfg_attr(kani, kani::stub(std::result::unwrap_failed, unwrap_failed))]
#[cfg_attr(kani, kani::unwind(4))]
fn immediate() {
    immediate_(false)
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::stub(paladin::operation::RetryStrategy::into_backoff, no_backoff_here))]
#[cfg_attr(kani, kani::stub(std::result::unwrap_failed, unwrap_failed))]
#[cfg_attr(kani, kani::unwind(4))]
fn immediate_traced() {
    immediate_(true)
}
fn immediate_(t: bool) {
    let (m, max_retries) = max();
    let o = Op::new(m);
    let s = RetryStrategy::Immediate { max_retries };
    let r = if t {
        nd::run(s.retry_trace(|| now(|| o.call()), |e| o.trace(e)))
    } else {
        nd::run(s.retry(|| now(|| o.call())))
    };
    check(&o, r, m, t);
    post!(nd::elapsed() == Duration::ZERO, "retries are immediate");
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::stub(paladin::operation::RetryStrategy::into_backoff, no_backoff_here))]
#[cfg_attr(kani, kani::stub(std::result::unwrap_failed, unwrap_failed))]
#[cfg_attr(kani, kani::unwind(4))]
fn after() {
    after_(false)
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::stub(paladin::operation::RetryStrategy::into_backoff, no_backoff_here))]
#[cfg_attr(kani, kani::stub(std::result::unwrap_failed, unwrap_failed))]
#[cfg_attr(kani, kani::unwind(4))]
fn after_traced() {
    after_(true)
}
fn after_(t: bool) {
    let (m, max_retries) = max();
    let o = Op::new(m);
    let secs = nd::any_u8() as u64;
    let s = RetryStrategy::After { max_retries, duration: Duration::from_secs(secs) };
    let r = if t {
        nd::run(s.retry_trace(|| now(|| o.call()), |e| o.trace(e)))
    } else {
        nd::run(s.retry(|| now(|| o.call())))
    };
    check(&o, r, m, t);
    let retries = if o.fails < m { o.fails } else { m } as u64;
    let e = nd::elapsed();
    post!(
        e >= Duration::from_secs(secs * retries) && e <= Duration::from_millis(secs * 1000 * retries + 2 * retries),
        "the given duration passes before every retry, and only there"
    );
}
/// Exponential: retried until the budget is used up; the bounds given are the
/// ones used.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::stub(std::result::unwrap_failed, unwrap_failed))]
#[cfg_attr(kani, kani::unwind(4))]
fn exponential() {
    exponential_(false)
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::stub(std::result::unwrap_failed, unwrap_failed))]
#[cfg_attr(kani, kani::unwind(4))]
fn exponential_traced() {
    exponential_(true)
}
fn exponential_(t: bool) {
    let (min, max) = (nd::any_u8() as u64, nd::any_u8() as u64);
    let s = RetryStrategy::Exponential {
        min_duration: Duration::from_millis(min),
        max_duration: Duration::from_millis(max),
    };
    let b = s.into_backoff();
    post!(b.is_ok(), "an exponential strategy has a backoff");
    let b = b.ok().unwrap();
    post!(b.initial_interval == Duration::from_millis(min), "min_duration is the first interval");
    post!(b.max_elapsed_time == Some(Duration::from_millis(max)), "max_duration bounds the total time");
    let o = Op::new(u32::MAX);
    let r = if t {
        nd::run(s.retry_trace(|| now(|| o.call()), |e| o.trace(e)))
    } else {
        nd::run(s.retry(|| now(|| o.call())))
    };
    match r {
        Ok(v) => {
            post!(v == o.fails + 101 && o.calls.get() == o.fails + 1, "attempts stop at the first success");
        }
        Err(e) => {
            post!(e == o.calls.get() && e <= o.fails, "the last error is returned");
        }
    }
    if t {
        post!(o.traced.get() == o.calls.get() - 1, "every failed attempt that is retried is traced, once");
    }
    cover!(r.is_ok() && o.fails > 0, "recovers");
    cover!(r.is_err(), "gives up");
}
/// The other strategies have no backoff.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::stub(std::result::unwrap_failed, unwrap_failed))]
fn no_backoff() {
    let n = nd::any_u32();
    nd::assume(n > 0);
    let max_retries = NonZeroU32::new(n).unwrap();
    let s = if nd::any_bool() {
        RetryStrategy::Immediate { max_retries }
    } else {
        RetryStrategy::After { max_retries, duration: Duration::from_secs(nd::any_u64() / 2) }
    };
    let r = s.into_backoff();
    post!(r.is_err(), "only exponential strategies have a backoff");
    forget(r);
}

fn any_fatal() -> FatalStrategy {
    if nd::any_bool() {
        FatalStrategy::Ignore
    } else {
        FatalStrategy::Terminate
    }
}
fn ignores(s: FatalStrategy) -> bool {
    matches!(s, FatalStrategy::Ignore)
}
// The future of `OperationError::retry` nests too deeply for the verifier (its
// symbolic execution does not get past building it): bounded, native only.
/// A transient operation error is retried by its own strategy; when it is given
/// up it becomes fatal with its own fatal strategy.
fn transient() {
    transient_(false)
}
fn transient_traced() {
    transient_(true)
}
fn transient_(t: bool) {
    let (m, max_retries) = max();
    let fs = any_fatal();
    let o = Op::new(m);
    let e: OperationError =
        TransientError::from_anyhow(err(), RetryStrategy::Immediate { max_retries }, fs).into();
    // the retried attempts fail with errors of any kind
    let (kind, inner) = (nd::any_bool(), any_fatal());
    let f = || {
        now(|| o.call().map_err(|_| {
            if kind {
                TransientError::from_anyhow(err(), RetryStrategy::default(), inner).into()
            } else {
                FatalError::from_anyhow(err(), inner).into()
            }
        }))
    };
    let r: Result<u32> = if t { nd::run(e.retry_trace(f, |e| { o.trace(0); forget(e) })) } else { nd::run(e.retry(f)) };
    match &r {
        Ok(v) => {
            post!(o.fails <= m && *v == o.fails + 101, "the result of the first successful retry is returned");
            post!(o.calls.get() == o.fails + 1, "retries stop at the first success");
        }
        Err(e) => {
            post!(o.fails > m && o.calls.get() == m + 1, "given up only after max_retries");
            post!(matches!(e, OperationError::Fatal { .. }), "a transient error that is given up is fatal");
            post!(ignores(e.fatal_strategy()) == ignores(fs), "its fatal strategy is the transient error's");
        }
    }
    if t {
        post!(o.traced.get() == if o.fails < m { o.fails } else { m }, "every failed retry is traced");
    }
    cover!(r.is_ok(), "recovers");
    cover!(r.is_err(), "gives up");
    forget(r);
}
/// A fatal error is never retried.
fn fatal() {
    fatal_(false)
}
fn fatal_traced() {
    fatal_(true)
}
fn fatal_(t: bool) {
    let fs = any_fatal();
    let e: OperationError = FatalError::from_anyhow(err(), fs).into();
    let calls = Cell::new(0);
    let f = || {
        calls.set(calls.get() + 1);
        now(|| Ok(1u8))
    };
    let r = if t { nd::run(e.retry_trace(f, |e| forget(e))) } else { nd::run(e.retry(f)) };
    post!(calls.get() == 0, "a fatal error is not retried");
    match &r {
        Err(e) => {
            post!(
                matches!(e, OperationError::Fatal { .. }) && ignores(e.fatal_strategy()) == ignores(fs),
                "a fatal error is returned as is"
            );
        }
        Ok(_) => post!(false, "a fatal error is returned as is"),
    }
    forget(r);
}
harnesses![immediate, immediate_traced, after, after_traced, exponential, exponential_traced, no_backoff, transient, transient_traced, fatal, fatal_traced];
