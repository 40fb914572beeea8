//! Contracts of the operation error types: strategies and causes survive every
//! conversion.
use crate::common::*;
use crate::nd;
use paladin::operation::*;
use std::num::NonZeroU32;
use std::time::Duration;

#[derive(Debug, PartialEq)]
struct Cause(u32);
impl std::fmt::Display for Cause {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("cause")
    }
}
impl std::error::Error for Cause {}

fn any_retry() -> RetryStrategy {
    let n = nd::any_u32();
    nd::assume(n > 0);
    let max_retries = NonZeroU32::new(n).unwrap();
    let d = |n: u64| Duration::from_secs(n);
    match nd::below(3) {
        0 => RetryStrategy::Immediate { max_retries },
        1 => RetryStrategy::After { max_retries, duration: d(nd::any_u64()) },
        _ => RetryStrategy::Exponential { min_duration: d(nd::any_u64()), max_duration: d(nd::any_u64()) },
    }
}
fn same_retry(a: &RetryStrategy, b: &RetryStrategy) -> bool {
    use RetryStrategy::*;
    match (a, b) {
        (Immediate { max_retries: a }, Immediate { max_retries: b }) => a == b,
        (After { max_retries: a, duration: c }, After { max_retries: b, duration: d }) => a == b && c == d,
        (
            Exponential { min_duration: a, max_duration: c },
            Exponential { min_duration: b, max_duration: d },
        ) => a == b && c == d,
        _ => false,
    }
}
fn any_fatal() -> FatalStrategy {
    if nd::any_bool() {
        FatalStrategy::Ignore
    } else {
        FatalStrategy::Terminate
    }
}
fn same(a: FatalStrategy, b: FatalStrategy) -> bool {
    matches!(a, FatalStrategy::Ignore) == matches!(b, FatalStrategy::Ignore)
}
fn is_cause(e: &anyhow::Error, c: u32) -> bool {
    e.downcast_ref::<Cause>() == Some(&Cause(c))
}

#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(8))]
fn transient() {
    let (rs, fs, c) = (any_retry(), any_fatal(), nd::any_u32());
    let kind = nd::below(4);
    let t = match kind {
        0 => TransientError::new(Cause(c), rs, fs),
        1 => TransientError::from_anyhow(anyhow::Error::from(Cause(c)), rs, fs),
        2 => TransientError::from_str("text", rs, fs),
        _ => TransientError::from(Cause(c)),
    };
    let (rs, fs) = if kind == 3 { (RetryStrategy::default(), FatalStrategy::default()) } else { (rs, fs) };
    let e: OperationError = if nd::any_bool() {
        t.into()
    } else {
        let r: Result<()> = t.into();
        match r {
            Err(e) => e,
            Ok(()) => {
                post!(false, "an error converts to Err");
                return;
            }
        }
    };
    post!(same(e.fatal_strategy(), fs), "the fatal strategy is kept");
    if kind != 2 {
        post!(is_cause(e.as_err(), c), "the cause is kept");
    }
    match &e {
        OperationError::Transient { retry_strategy, fatal_strategy, .. } => {
            post!(same_retry(retry_strategy, &rs), "the retry strategy is kept");
            post!(same(*fatal_strategy, fs), "the fatal strategy is kept");
        }
        _ => post!(false, "a transient error is transient"),
    }
    finish(e, fs, c, kind != 2);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(8))]
fn fatal() {
    let (fs, c) = (any_fatal(), nd::any_u32());
    let kind = nd::below(4);
    let t = match kind {
        0 => FatalError::new(Cause(c), fs),
        1 => FatalError::from_anyhow(anyhow::Error::from(Cause(c)), fs),
        2 => FatalError::from_str("text", fs),
        _ => FatalError::from(Cause(c)),
    };
    let fs = if kind == 3 { FatalStrategy::default() } else { fs };
    let e: OperationError = if nd::any_bool() {
        t.into()
    } else {
        let r: Result<()> = t.into();
        match r {
            Err(e) => e,
            Ok(()) => {
                post!(false, "an error converts to Err");
                return;
            }
        }
    };
    post!(same(e.fatal_strategy(), fs), "the fatal strategy is kept");
    post!(matches!(e, OperationError::Fatal { .. }), "a fatal error is fatal");
    if kind != 2 {
        post!(is_cause(e.as_err(), c), "the cause is kept");
    }
    finish(e, fs, c, kind != 2);
}
fn finish(e: OperationError, fs: FatalStrategy, c: u32, has_cause: bool) {
    if nd::any_bool() {
        let f = e.into_fatal();
        post!(matches!(f, OperationError::Fatal { .. }), "into_fatal is fatal");
        post!(same(f.fatal_strategy(), fs), "into_fatal keeps the fatal strategy");
        post!(!has_cause || is_cause(f.as_err(), c), "into_fatal keeps the cause");
        forget(f);
    } else {
        let x = e.into_err();
        post!(!has_cause || is_cause(&x, c), "into_err is the cause");
        forget(x);
    }
}
/// The documented defaults.
#[cfg_attr(kani, kani::proof)]
fn defaults() {
    post!(
        matches!(RetryStrategy::default(), RetryStrategy::Immediate { max_retries } if max_retries.get() == 3),
        "by default, retry immediately three times"
    );
    post!(matches!(FatalStrategy::default(), FatalStrategy::Terminate), "by default, terminate");
}
/// The text of an error survives every construction and conversion, with the
/// texts of its causes.
#[cfg(not(kani))]
mod texts {
    use super::*;
    #[derive(Debug)]
    pub struct Own(pub String, pub Option<std::fmt::Error>);
    impl std::fmt::Display for Own {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for Own {
        fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
            self.1.as_ref().map(|e| e as _)
        }
    }
    fn own() -> (Own, Vec<String>) {
        let t = any_text();
        let src = nd::any_bool().then_some(std::fmt::Error);
        let mut v = vec![t.clone()];
        v.extend(src.map(|e| e.to_string()));
        (Own(t, src), v)
    }
    fn any() -> (anyhow::Error, Vec<String>) {
        let (o, mut v) = own();
        if nd::any_bool() {
            let c = any_text();
            v.insert(0, c.clone());
            (anyhow::Error::from(o).context(c), v)
        } else {
            (o.into(), v)
        }
    }
    fn chain(e: &anyhow::Error) -> Vec<String> {
        e.chain().map(|e| e.to_string()).collect()
    }
    pub fn rand_texts() {
        let (rs, fs) = (any_retry(), any_fatal());
        let transient = nd::any_bool();
        let (e, want): (OperationError, Vec<String>) = match (nd::below(4), transient) {
            (0, true) => own1(|o| TransientError::new(o, rs, fs).into()),
            (0, false) => own1(|o| FatalError::new(o, fs).into()),
            (1, true) => own1(|o| TransientError::from(o).into()),
            (1, false) => own1(|o| FatalError::from(o).into()),
            (2, t) => {
                let (a, w) = any();
                (if t { TransientError::from_anyhow(a, rs, fs).into() } else { FatalError::from_anyhow(a, fs).into() }, w)
            }
            (_, t) => {
                let x = any_text();
                (if t { TransientError::from_str(&x, rs, fs).into() } else { FatalError::from_str(&x, fs).into() }, vec![x])
            }
        };
        post!(chain(e.as_err()) == want, "the text of an error is kept");
        post!(e.to_string().contains(&want[0]), "the text of an error is shown");
        post!(format!("{e:?}").contains(&format!("{:?}", e.as_err())), "the text of an error is shown for debugging");
        let e = if nd::any_bool() { e.into_fatal() } else { e };
        post!(chain(e.as_err()) == want, "the text of an error is kept when it becomes fatal");
        post!(e.to_string().contains(&want[0]), "the text of an error that became fatal is shown");
        if nd::any_bool() {
            post!(chain(&e.into_err()) == want, "the text of an error is kept by into_err");
        } else {
            let again = crate::now(e.retry(|| async { Ok::<(), _>(()) }));
            if let Err(e) = again {
                post!(chain(e.as_err()) == want, "the text of an error that is not retried is kept");
            }
        }
    }
    fn own1(f: impl Fn(Own) -> OperationError) -> (OperationError, Vec<String>) {
        let (o, w) = own();
        (f(o), w)
    }
}
#[cfg(not(kani))]
use texts::rand_texts;
#[cfg(not(kani))]
crate::harnesses![transient, fatal, defaults, rand_texts];
