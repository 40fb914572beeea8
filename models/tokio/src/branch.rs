//! A branch of `try_join!`.
use std::future::Future;
use std::mem::ManuallyDrop;
use std::pin::Pin;
use std::task::{Context, Poll};

/// A future and, once it has completed, its value. A completed future is
/// leaked (it has nothing left to drop), another one dropped.
pub struct Branch<F, T> {
    future: ManuallyDrop<F>,
    done: bool,
    value: Option<T>,
}
impl<F, T, E> Branch<F, T>
where
    F: Future<Output = Result<T, E>>,
{
    pub fn new(f: F) -> Self {
        Branch { future: ManuallyDrop::new(f), done: false, value: None }
    }
    /// # Safety
    /// The branch is not moved afterwards.
    pub unsafe fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), E>> {
        if self.done {
            return Poll::Ready(Ok(()));
        }
        match Pin::new_unchecked(&mut *self.future).poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(r) => {
                self.done = true;
                Poll::Ready(match r {
                    Ok(x) => {
                        self.value = Some(x);
                        Ok(())
                    }
                    Err(e) => Err(e),
                })
            }
        }
    }
    pub fn take(&mut self) -> T {
        match self.value.take() {
            Some(x) => x,
            None => unreachable!(),
        }
    }
}
impl<F, T> Drop for Branch<F, T> {
    fn drop(&mut self) {
        if !self.done {
            unsafe { ManuallyDrop::drop(&mut self.future) }
        }
    }
}
