use futures_core::future::FusedFuture;
use std::cell::{Cell, UnsafeCell};
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
struct Chan<T> {
    v: UnsafeCell<Option<T>>,
    tx: Cell<bool>,
    rx: Cell<bool>,
}
unsafe impl<T: Send> Send for Chan<T> {}
unsafe impl<T: Send> Sync for Chan<T> {}
pub struct Sender<T> {
    c: Arc<Chan<T>>,
}
#[must_use = "futures do nothing unless you `.await` or poll them"]
pub struct Receiver<T> {
    c: Arc<Chan<T>>,
}
impl<T> Unpin for Sender<T> {}
impl<T> Unpin for Receiver<T> {}
impl<T> fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("Sender")
    }
}
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("Receiver")
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Canceled;
impl fmt::Display for Canceled {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("oneshot canceled")
    }
}
impl std::error::Error for Canceled {}
pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = Arc::new(Chan { v: UnsafeCell::new(None), tx: Cell::new(true), rx: Cell::new(true) });
    (Sender { c: c.clone() }, Receiver { c })
}
impl<T> Sender<T> {
    pub fn send(self, t: T) -> Result<(), T> {
        kenv::step(kenv::CHAN);
        if !self.c.rx.get() {
            return Err(t);
        }
        unsafe { *self.c.v.get() = Some(t) };
        Ok(())
    }
    pub fn is_canceled(&self) -> bool {
        !self.c.rx.get()
    }
    pub fn poll_canceled(&mut self, cx: &mut Context<'_>) -> Poll<()> {
        if self.is_canceled() {
            Poll::Ready(())
        } else {
            kenv::register(cx);
            Poll::Pending
        }
    }
    pub fn is_connected_to(&self, r: &Receiver<T>) -> bool {
        Arc::ptr_eq(&self.c, &r.c)
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        self.c.tx.set(false)
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        self.c.rx.set(false)
    }
}
impl<T> Receiver<T> {
    pub fn close(&mut self) {
        self.c.rx.set(false)
    }
    pub fn try_recv(&mut self) -> Result<Option<T>, Canceled> {
        kenv::step(kenv::CHAN);
        match unsafe { &mut *self.c.v.get() }.take() {
            Some(v) => Ok(Some(v)),
            None if self.c.tx.get() => Ok(None),
            None => Err(Canceled),
        }
    }
}
impl<T> Future for Receiver<T> {
    type Output = Result<T, Canceled>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        kenv::step(kenv::CHAN);
        if let Some(v) = unsafe { &mut *self.c.v.get() }.take() {
            return Poll::Ready(Ok(v));
        }
        if !self.c.tx.get() {
            return Poll::Ready(Err(Canceled));
        }
        kenv::register(cx);
        Poll::Pending
    }
}
impl<T> FusedFuture for Receiver<T> {
    fn is_terminated(&self) -> bool {
        !self.c.tx.get() && unsafe { &*self.c.v.get() }.is_none()
    }
}
