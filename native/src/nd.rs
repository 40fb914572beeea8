//! Nondeterminism of the harnesses, native side: a bounded choice of values,
//! enumerated by `explore`.
use crate::{choose, log};
use std::future::Future;
use std::task::{Context, RawWaker, RawWakerVTable, Waker};

fn pick<T: Copy + std::fmt::Debug>(of: &[T]) -> T {
    let v = of[choose(of.len())];
    log(format!("{v:?}"));
    v
}
pub fn any_bool() -> bool {
    pick(&[false, true])
}
pub fn any_u8() -> u8 {
    pick(&[0, 1, 2, 255])
}
pub fn any_u32() -> u32 {
    pick(&[0, 1, 2, u32::MAX])
}
pub fn any_u64() -> u64 {
    pick(&[0, 1, 2, u64::MAX])
}
pub fn any_usize() -> usize {
    pick(&[0, 1, 2, 5, usize::MAX])
}
pub fn below(n: usize) -> usize {
    let v = choose(n);
    log(format!("{v}"));
    v
}
pub fn assume(b: bool) {
    if !b {
        std::panic::panic_any(crate::Prune)
    }
}
pub fn block_on<F: Future>(f: F) -> F::Output {
    crate::now(f)
}
/// The (virtual) time the last `run` took.
pub fn elapsed() -> std::time::Duration {
    ELAPSED.with(|e| e.get())
}
thread_local!(static ELAPSED: std::cell::Cell<std::time::Duration> = const { std::cell::Cell::new(std::time::Duration::ZERO) });
/// A future that may rely on a tokio runtime (with virtual time).
pub fn run<F: Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap().block_on(async {
        let t = tokio::time::Instant::now();
        let r = f.await;
        ELAPSED.with(|e| e.set(t.elapsed()));
        r
    })
}

static mut WAKES: usize = 0;
const VT: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &VT), wake, wake, |_| {});
fn wake(_: *const ()) {
    unsafe { WAKES += 1 }
}
pub fn waker() -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}
pub fn wakes() -> usize {
    unsafe { WAKES }
}
pub fn with_cx<R>(f: impl FnOnce(&mut Context<'_>) -> R) -> R {
    let w = std::mem::ManuallyDrop::new(waker());
    f(&mut Context::from_waker(&w))
}
#[macro_export]
macro_rules! cover {
    ($c:expr, $m:literal) => {
        let _ = $c;
    };
}
#[macro_export]
macro_rules! harnesses {
    ($($n:ident),* $(,)?) => {
        pub const ALL: &[(&str, fn())] = &[$((stringify!($n), $n)),*];
    };
}
/// Any value; the native build enumerates those below `n`.
pub fn small(n: usize) -> usize {
    below(n)
}
pub fn small_u8(n: usize) -> u8 {
    below(n) as u8
}
