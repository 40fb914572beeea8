//! Nondeterminism of the harnesses, verifier side: every value is symbolic.
use std::future::Future;
use std::task::{Context, RawWaker, RawWakerVTable, Waker};

pub use kani::any_where;
pub fn any_bool() -> bool {
    kani::any()
}
pub fn any_u8() -> u8 {
    kani::any()
}
pub fn any_u32() -> u32 {
    kani::any()
}
pub fn any_u64() -> u64 {
    kani::any()
}
pub fn any_usize() -> usize {
    kani::any()
}
pub fn below(n: usize) -> usize {
    let x: usize = kani::any();
    kani::assume(x < n);
    x
}
pub fn assume(b: bool) {
    kani::assume(b)
}
pub fn block_on<F: Future>(f: F) -> F::Output {
    kani::block_on(f)
}
/// For a future that may rely on a tokio context: timers elapse at once, so it
/// is ready at its first poll.
pub fn run<F: Future>(f: F) -> F::Output {
    let mut f = std::mem::ManuallyDrop::new(f);
    match with_cx(|cx| unsafe { std::pin::Pin::new_unchecked(&mut *f) }.poll(cx)) {
        std::task::Poll::Ready(r) => r,
        std::task::Poll::Pending => panic!("[P] nothing is waited for but the operation and the timer"),
    }
}

static mut WAKES: usize = 0;
const VT: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &VT), wake, wake, |_| {});
fn wake(_: *const ()) {
    unsafe { WAKES += 1 }
}
pub fn waker() -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}
/// How often a `waker()` was woken.
pub fn wakes() -> usize {
    unsafe { WAKES }
}
pub fn with_cx<R>(f: impl FnOnce(&mut Context<'_>) -> R) -> R {
    let w = std::mem::ManuallyDrop::new(waker());
    f(&mut Context::from_waker(&w))
}
#[macro_export]
macro_rules! cover {
    ($c:expr, $m:literal) => {
        kani::cover!($c, $m)
    };
}
#[macro_export]
macro_rules! harnesses {
    ($($n:ident),* $(,)?) => {};
}

/// The time slept so far.
pub fn elapsed() -> std::time::Duration {
    unsafe { tokio::time::ELAPSED }
}
/// Any value; the native build enumerates those below `n`.
pub fn small(_n: usize) -> usize {
    kani::any()
}
pub fn small_u8(_n: usize) -> u8 {
    kani::any()
}
