//! Contract of `tokio_util::sync::PollSemaphore`.
pub mod sync {
    use futures_core::Stream;
    use std::pin::Pin;
    use std::sync::Arc;
    use std::task::{Context, Poll};
    use tokio::sync::{OwnedSemaphorePermit, Semaphore};

    pub struct PollSemaphore {
        semaphore: Arc<Semaphore>,
    }
    impl PollSemaphore {
        pub fn new(semaphore: Arc<Semaphore>) -> Self {
            PollSemaphore { semaphore }
        }
        pub fn close(&self) {
            self.semaphore.close()
        }
        pub fn clone_inner(&self) -> Arc<Semaphore> {
            self.semaphore.clone()
        }
        pub fn into_inner(self) -> Arc<Semaphore> {
            self.semaphore
        }
        pub fn poll_acquire(&mut self, cx: &mut Context<'_>) -> Poll<Option<OwnedSemaphorePermit>> {
            self.poll_acquire_many(cx, 1)
        }
        pub fn poll_acquire_many(&mut self, cx: &mut Context<'_>, n: u32) -> Poll<Option<OwnedSemaphorePermit>> {
            match self.semaphore.poll_take(n, cx) {
                Poll::Ready(Ok(())) => Poll::Ready(Some(OwnedSemaphorePermit::model_new(self.semaphore.clone(), n))),
                Poll::Ready(Err(_)) => Poll::Ready(None),
                Poll::Pending => Poll::Pending,
            }
        }
        pub fn available_permits(&self) -> usize {
            self.semaphore.available_permits()
        }
        pub fn add_permits(&self, n: usize) {
            self.semaphore.add_permits(n)
        }
    }
    impl Stream for PollSemaphore {
        type Item = OwnedSemaphorePermit;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<OwnedSemaphorePermit>> {
            Pin::into_inner(self).poll_acquire(cx)
        }
    }
    impl Clone for PollSemaphore {
        fn clone(&self) -> Self {
            PollSemaphore::new(self.clone_inner())
        }
    }
    impl AsRef<Semaphore> for PollSemaphore {
        fn as_ref(&self) -> &Semaphore {
            &self.semaphore
        }
    }
    impl std::fmt::Debug for PollSemaphore {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.pad("PollSemaphore")
        }
    }
}
