use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::time::{Duration, Instant};

/// Ghost: total sleeps requested and the last requested duration.
pub static mut SLEEPS: usize = 0;
pub static mut LAST_SLEEP: Duration = Duration::ZERO;
/// Ghost: the sum of the sleeps that have elapsed.
pub static mut ELAPSED: Duration = Duration::ZERO;

#[must_use]
#[derive(Debug)]
pub struct Sleep {
    _d: Duration,
    pending: bool,
    counted: bool,
}
pub fn sleep(d: Duration) -> Sleep {
    Sleep { _d: d, pending: may_pend(), counted: false }
}
pub fn sleep_until(_i: Instant) -> Sleep {
    sleep(Duration::ZERO)
}
/// Whether a fresh timer is still running at its first poll (a proof harness
/// may replace this by an arbitrary choice).
#[inline(never)]
pub fn may_pend() -> bool {
    false
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if !self.counted {
            self.counted = true;
            unsafe {
                SLEEPS += 1;
                LAST_SLEEP = self._d;
            }
        }
        if self.pending {
            self.pending = false;
            kenv::register(cx);
            return Poll::Pending;
        }
        unsafe { ELAPSED += self._d }
        Poll::Ready(())
    }
}
pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(());
    impl Elapsed {
        pub(crate) fn new() -> Self {
            Elapsed(())
        }
    }
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
}
pub async fn timeout<F: Future>(_d: Duration, f: F) -> Result<F::Output, error::Elapsed> {
    let mut f = Box::pin(f);
    std::future::poll_fn(move |cx| match f.as_mut().poll(cx) {
        Poll::Ready(v) => Poll::Ready(Ok(v)),
        Poll::Pending => {
            if kenv::any_bool() {
                Poll::Ready(Err(error::Elapsed::new()))
            } else {
                Poll::Pending
            }
        }
    })
    .await
}
pub struct Interval;
pub fn interval(_d: Duration) -> Interval {
    Interval
}
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        Instant::now()
    }
}
