//! Contract of `backoff` 0.4: `future.rs` and `error.rs` are the real crate's;
//! the exponential policy's clock and jitter are abstracted: with a maximum
//! elapsed time it may stop at any point, otherwise it never stops.
pub mod backoff;
mod error;
pub mod default;
pub mod future;
pub mod exponential;
pub mod retry {
    use std::time::Duration;
    pub trait Notify<E> {
        fn notify(&mut self, err: E, duration: Duration);
    }
    impl<E, F> Notify<E> for F
    where
        F: FnMut(E, Duration),
    {
        fn notify(&mut self, err: E, duration: Duration) {
            self(err, duration)
        }
    }
    #[derive(Debug, Clone, Copy)]
    pub struct NoopNotify;
    impl<E> Notify<E> for NoopNotify {
        fn notify(&mut self, _: E, _: Duration) {}
    }
}
pub use crate::error::Error;
pub use crate::retry::Notify;
pub type ExponentialBackoff = exponential::ExponentialBackoff;
pub type ExponentialBackoffBuilder = exponential::ExponentialBackoffBuilder;
