#![allow(dead_code, unused_imports, static_mut_refs, clippy::all)]
//! Exhaustive enumeration of schedules: a deterministic run is a function of
//! the answers to `choose`; `explore` runs it for every answer sequence.
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

#[macro_use]
pub mod nd;
pub mod broker;
pub mod ops;
#[cfg(verif)]
pub mod sim;
#[macro_use]
#[path = "../../harness/common.rs"]
pub mod common;
macro_rules! modules {
    ($($k:ident $n:ident $p:literal),* $(,)?) => {
        $(module!($k $n $p);)*
        pub const HARNESSES: &[(&str, &[(&str, fn())])] = &[$((stringify!($n), all!($k $n))),*];
    };
}
macro_rules! module {
    (hook $n:ident $p:literal) => {
        #[cfg(verif)]
        #[path = $p]
        pub mod $n;
    };
    (open $n:ident $p:literal) => {
        #[path = $p]
        pub mod $n;
    };
}
macro_rules! all {
    (hook $n:ident) => {{
        #[cfg(verif)]
        let a = $n::ALL;
        #[cfg(not(verif))]
        let a: &[(&str, fn())] = &[];
        a
    }};
    (open $n:ident) => {
        $n::ALL
    };
}
modules! {
    hook coord "../../harness/coord.rs",
    open chan "../../harness/chan.rs",
    open acker "../../harness/acker.rs",
    open lease "../../harness/lease.rs",
    open publish "../../harness/publish.rs",
    open retry "../../harness/retry.rs",
    open errors "../../harness/errors.rs",
    hook fold "../../harness/fold.rs",
    open contig "../../harness/contig.rs",
    open operation "../../harness/operation.rs",
    open task "../../harness/task.rs",
    open serializer "../../harness/serializer.rs",
    open stream "../../harness/stream.rs",
    hook map "../../harness/map.rs",
    open queues "../../harness/queues.rs",
    open channel "../../harness/channel.rs",
    open conn "../../harness/conn.rs",
    open amqp "../../harness/amqp.rs",
    open remote "../../harness/remote.rs",
    open worker "../../harness/worker.rs",
}

thread_local! {
    static TRACE: RefCell<(Vec<(usize, usize)>, usize)> = const { RefCell::new((Vec::new(), 0)) };
    static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
pub fn choose(n: usize) -> usize {
    assert!(n > 0);
    if n == 1 {
        return 0;
    }
    TRACE.with(|t| {
        let (tr, pos) = &mut *t.borrow_mut();
        if *pos == tr.len() {
            tr.push((RNG.with(|r| r.get()).map_or(0, |_| rand() as usize % n), n));
        }
        if tr[*pos].1 == usize::MAX {
            tr[*pos].1 = n;
        }
        assert_eq!(tr[*pos].1, n, "non-deterministic run");
        *pos += 1;
        tr[*pos - 1].0
    })
}
thread_local!(static RNG: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) });
fn rand() -> u64 {
    RNG.with(|r| {
        let mut x = r.get().unwrap();
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        r.set(Some(x));
        x >> 11
    })
}
pub fn log(s: impl Into<String>) {
    LOG.with(|l| l.borrow_mut().push(s.into()));
}
pub fn take_log() -> Vec<String> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

pub struct Outcome {
    pub runs: usize,
    pub pruned: usize,
    pub complete: bool,
    pub failure: Option<(String, Vec<String>, Vec<usize>)>,
    pub samples: Vec<Vec<String>>,
}
/// The run is outside the precondition.
pub struct Prune;
/// Run `f` under every schedule (at most `limit`).
pub fn explore(limit: usize, f: impl FnMut() -> Result<(), String>) -> Outcome {
    explore_for(limit, std::time::Duration::from_secs(1 << 30), &[], None, f)
}
/// With `random`, runs are sampled, not enumerated.
/// As `explore`, starting from the choices `from` (of unknown arity: `limit` 1
/// replays them).
pub fn explore_for(
    limit: usize,
    time: std::time::Duration,
    from: &[usize],
    random: Option<u64>,
    mut f: impl FnMut() -> Result<(), String>,
) -> Outcome {
    let t0 = std::time::Instant::now();
    RNG.with(|r| r.set(random.map(|s| s.wrapping_mul(0x9e3779b97f4a7c15) | 1)));
    TRACE.with(|t| t.borrow_mut().0 = from.iter().map(|c| (*c, usize::MAX)).collect());
    let mut o = Outcome { runs: 0, pruned: 0, complete: false, failure: None, samples: vec![] };
    loop {
        TRACE.with(|t| t.borrow_mut().1 = 0);
        take_log();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(&mut f)).unwrap_or_else(|p| {
            if p.is::<Prune>() {
                o.pruned += 1;
                return Ok(());
            }
            Err(format!(
                "panic: {}",
                p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
            ))
        });
        o.runs += 1;
        let l = take_log();
        if o.samples.len() < 2 {
            o.samples.push(l.clone());
        }
        if let Err(e) = r {
            o.failure = Some((e, l, TRACE.with(|t| t.borrow().0.iter().map(|x| x.0).collect())));
            return o;
        }
        // next answer sequence
        let more = random.is_some() || TRACE.with(|t| {
            let (tr, pos) = &mut *t.borrow_mut();
            tr.truncate(*pos);
            while let Some((c, n)) = tr.pop() {
                if c + 1 < n {
                    tr.push((c + 1, n));
                    return true;
                }
            }
            false
        });
        if random.is_some() {
            TRACE.with(|t| t.borrow_mut().0.clear());
        }
        if !more {
            o.complete = true;
            return o;
        }
        if o.runs >= limit || t0.elapsed() > time {
            return o;
        }
    }
}

#[derive(Default)]
pub struct Flag {
    woken: AtomicBool,
    pub wakes: AtomicUsize,
}
impl Flag {
    pub fn woken(&self) -> bool {
        self.woken.load(SeqCst)
    }
    pub fn reset(&self) {
        self.woken.store(false, SeqCst)
    }
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.woken.store(true, SeqCst);
        self.wakes.fetch_add(1, SeqCst);
    }
}
/// A future polled only when it was woken (or first created).
pub struct Fut<'a, T> {
    f: Pin<Box<dyn Future<Output = T> + 'a>>,
    flag: Arc<Flag>,
    pub out: Option<T>,
}
impl<'a, T> Fut<'a, T> {
    pub fn new(f: impl Future<Output = T> + 'a) -> Self {
        let flag = Arc::new(Flag::default());
        flag.woken.store(true, SeqCst);
        Fut { f: Box::pin(f), flag, out: None }
    }
    pub fn runnable(&self) -> bool {
        self.out.is_none() && self.flag.woken.load(SeqCst)
    }
    pub fn poll(&mut self) {
        if self.out.is_some() {
            return;
        }
        self.flag.woken.store(false, SeqCst);
        let w = Waker::from(self.flag.clone());
        if let Poll::Ready(v) = self.f.as_mut().poll(&mut Context::from_waker(&w)) {
            self.out = Some(v);
        }
    }
    pub fn run(&mut self) {
        let mut n = 0;
        while self.runnable() {
            self.poll();
            n += 1;
            assert!(n < 10_000, "livelock");
        }
    }
}
/// Poll a future that must finish without outside help.
pub fn now<T>(f: impl Future<Output = T>) -> T {
    let mut f = Fut::new(f);
    f.run();
    f.out.expect("future blocked")
}
