//! Contract of `backoff::future`: the operation runs until it succeeds, fails
//! permanently, or the backoff says stop; before every retry `notify` is told
//! and the interval passes. As in the real crate the next attempt is created
//! (not polled) before the delay.
use crate::{
    backoff::Backoff,
    error::Error,
    retry::{NoopNotify, Notify},
};
use std::future::Future;
use std::pin::Pin;

pub async fn retry<I, E, Fn, Fut, B>(backoff: B, operation: Fn) -> Result<I, E>
where
    B: Backoff,
    Fn: FnMut() -> Fut,
    Fut: Future<Output = Result<I, Error<E>>>,
{
    retry_notify(backoff, operation, NoopNotify).await
}
pub fn retry_notify<I, E, Fn, Fut, B, N>(
    mut backoff: B,
    mut operation: Fn,
    mut notify: N,
) -> Pin<Box<impl Future<Output = Result<I, E>>>>
where
    B: Backoff,
    Fn: FnMut() -> Fut,
    Fut: Future<Output = Result<I, Error<E>>>,
    N: Notify<E>,
{
    // boxed: keeps the verifier's type of the awaiting future small
    Box::pin(async move {
        backoff.reset();
        let mut fut = operation();
        loop {
            let (err, retry_after) = match fut.await {
                Ok(v) => return Ok(v),
                Err(Error::Permanent(e)) => return Err(e),
                Err(Error::Transient { err, retry_after }) => (err, retry_after),
            };
            let duration = match retry_after.or_else(|| backoff.next_backoff()) {
                Some(d) => d,
                None => return Err(err),
            };
            notify.notify(err, duration);
            let delay = ::tokio_1::time::sleep(duration);
            fut = operation();
            delay.await;
        }
    })
}
