//! FIFO queue; capacity `buffer + number of senders`; the stream ends once the
//! channel is closed (or every sender is gone) and the queue is empty.
use futures_core::stream::{FusedStream, Stream};
use std::cell::{Cell, UnsafeCell};
use std::fmt;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

const CAP: usize = 4;
struct Chan<T> {
    q: UnsafeCell<[Option<T>; CAP]>,
    head: Cell<usize>,
    len: Cell<usize>,
    senders: Cell<usize>,
    closed: Cell<bool>,
    buffer: usize,
}
unsafe impl<T: Send> Send for Chan<T> {}
unsafe impl<T: Send> Sync for Chan<T> {}
impl<T> Chan<T> {
    fn push(&self, t: T) {
        if self.len.get() >= CAP {
            kenv::capacity_exceeded()
        }
        unsafe { (&mut *self.q.get())[(self.head.get() + self.len.get()) % CAP] = Some(t) };
        self.len.set(self.len.get() + 1);
    }
    fn pop(&self) -> Option<T> {
        if self.len.get() == 0 {
            return None;
        }
        let r = unsafe { (&mut *self.q.get())[self.head.get()].take() };
        self.head.set((self.head.get() + 1) % CAP);
        self.len.set(self.len.get() - 1);
        r
    }
    fn full(&self) -> bool {
        self.len.get() >= self.buffer.saturating_add(self.senders.get())
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SendError {
    full: bool,
}
impl SendError {
    pub fn is_full(&self) -> bool {
        self.full
    }
    pub fn is_disconnected(&self) -> bool {
        !self.full
    }
}
impl fmt::Display for SendError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(if self.full { "send failed because channel is full" } else { "send failed because receiver is gone" })
    }
}
impl std::error::Error for SendError {}
#[derive(Clone, PartialEq, Eq)]
pub struct TrySendError<T> {
    err: SendError,
    val: T,
}
impl<T> TrySendError<T> {
    pub fn is_full(&self) -> bool {
        self.err.is_full()
    }
    pub fn is_disconnected(&self) -> bool {
        self.err.is_disconnected()
    }
    pub fn into_inner(self) -> T {
        self.val
    }
    pub fn into_send_error(self) -> SendError {
        self.err
    }
}
impl<T> fmt::Debug for TrySendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.err.fmt(f)
    }
}
impl<T> fmt::Display for TrySendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.err.fmt(f)
    }
}
impl<T: std::any::Any> std::error::Error for TrySendError<T> {}
#[derive(Debug)]
pub struct TryRecvError(());
impl fmt::Display for TryRecvError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("receiver channel is empty")
    }
}
impl std::error::Error for TryRecvError {}

macro_rules! sender {
    ($S:ident) => {
        pub struct $S<T> {
            c: Option<Arc<Chan<T>>>,
        }
        impl<T> Unpin for $S<T> {}
        impl<T> fmt::Debug for $S<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.pad(stringify!($S))
            }
        }
        impl<T> Clone for $S<T> {
            fn clone(&self) -> Self {
                if let Some(c) = &self.c {
                    c.senders.set(c.senders.get() + 1);
                }
                $S { c: self.c.clone() }
            }
        }
        impl<T> Drop for $S<T> {
            fn drop(&mut self) {
                self.leave()
            }
        }
        impl<T> $S<T> {
            fn leave(&mut self) {
                if let Some(c) = self.c.take() {
                    c.senders.set(c.senders.get() - 1);
                    if c.senders.get() == 0 {
                        c.closed.set(true);
                    }
                }
            }
            pub fn is_closed(&self) -> bool {
                match &self.c {
                    Some(c) => c.closed.get(),
                    None => true,
                }
            }
            pub fn disconnect(&mut self) {
                self.leave()
            }
            fn put(&self, t: T, bounded: bool) -> Result<(), TrySendError<T>> {
                kenv::step(kenv::CHAN);
                match &self.c {
                    Some(c) if !c.closed.get() => {
                        if bounded && c.full() {
                            return Err(TrySendError { err: SendError { full: true }, val: t });
                        }
                        c.push(t);
                        Ok(())
                    }
                    _ => Err(TrySendError { err: SendError { full: false }, val: t }),
                }
            }
        }
    };
}
sender!(Sender);
sender!(UnboundedSender);
impl<T> Sender<T> {
    pub fn close_channel(&mut self) {
        if let Some(c) = &self.c {
            c.closed.set(true);
        }
    }
    pub fn try_send(&mut self, t: T) -> Result<(), TrySendError<T>> {
        self.put(t, true)
    }
    pub fn start_send(&mut self, t: T) -> Result<(), SendError> {
        self.put(t, true).map_err(|e| e.err)
    }
    pub fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), SendError>> {
        kenv::step(kenv::CHAN);
        match &self.c {
            Some(c) if !c.closed.get() => {
                if c.full() {
                    kenv::register(cx);
                    Poll::Pending
                } else {
                    Poll::Ready(Ok(()))
                }
            }
            _ => Poll::Ready(Err(SendError { full: false })),
        }
    }
}
impl<T> UnboundedSender<T> {
    pub fn close_channel(&self) {
        if let Some(c) = &self.c {
            c.closed.set(true);
        }
    }
    pub fn unbounded_send(&self, t: T) -> Result<(), TrySendError<T>> {
        self.put(t, false)
    }
    pub fn start_send(&mut self, t: T) -> Result<(), SendError> {
        self.put(t, false).map_err(|e| e.err)
    }
    pub fn poll_ready(&self, _: &mut Context<'_>) -> Poll<Result<(), SendError>> {
        if self.is_closed() {
            Poll::Ready(Err(SendError { full: false }))
        } else {
            Poll::Ready(Ok(()))
        }
    }
}
macro_rules! receiver {
    ($R:ident) => {
        pub struct $R<T> {
            c: Arc<Chan<T>>,
            done: bool,
        }
        impl<T> Unpin for $R<T> {}
        impl<T> fmt::Debug for $R<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.pad(stringify!($R))
            }
        }
        impl<T> $R<T> {
            pub fn close(&mut self) {
                self.c.closed.set(true);
            }
            pub fn try_next(&mut self) -> Result<Option<T>, TryRecvError> {
                match self.c.pop() {
                    Some(t) => Ok(Some(t)),
                    None if self.c.closed.get() => Ok(None),
                    None => Err(TryRecvError(())),
                }
            }
        }
        impl<T> Drop for $R<T> {
            fn drop(&mut self) {
                self.c.closed.set(true);
            }
        }
        impl<T> Stream for $R<T> {
            type Item = T;
            fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
                kenv::step(kenv::CHAN);
                if let Some(t) = self.c.pop() {
                    return Poll::Ready(Some(t));
                }
                if self.c.closed.get() {
                    self.done = true;
                    return Poll::Ready(None);
                }
                kenv::register(cx);
                Poll::Pending
            }
        }
        impl<T> FusedStream for $R<T> {
            fn is_terminated(&self) -> bool {
                self.done
            }
        }
    };
}
receiver!(Receiver);
receiver!(UnboundedReceiver);

fn chan<T>(buffer: usize) -> Arc<Chan<T>> {
    Arc::new(Chan {
        q: UnsafeCell::new([const { None }; CAP]),
        head: Cell::new(0),
        len: Cell::new(0),
        senders: Cell::new(1),
        closed: Cell::new(false),
        buffer,
    })
}
pub fn channel<T>(buffer: usize) -> (Sender<T>, Receiver<T>) {
    let c = chan(buffer);
    (Sender { c: Some(c.clone()) }, Receiver { c, done: false })
}
pub fn unbounded<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
    let c = chan(usize::MAX);
    (UnboundedSender { c: Some(c.clone()) }, UnboundedReceiver { c, done: false })
}

#[cfg(feature = "sink")]
mod sink {
    use super::*;
    use futures_sink::Sink;
    impl<T> Sink<T> for Sender<T> {
        type Error = SendError;
        fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), SendError>> {
            (*self).poll_ready(cx)
        }
        fn start_send(mut self: Pin<&mut Self>, msg: T) -> Result<(), SendError> {
            (*self).start_send(msg)
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), SendError>> {
            Poll::Ready(Ok(()))
        }
        fn poll_close(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), SendError>> {
            self.disconnect();
            Poll::Ready(Ok(()))
        }
    }
    impl<T> Sink<T> for UnboundedSender<T> {
        type Error = SendError;
        fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), SendError>> {
            Self::poll_ready(&*self, cx)
        }
        fn start_send(mut self: Pin<&mut Self>, msg: T) -> Result<(), SendError> {
            Self::start_send(&mut *self, msg)
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), SendError>> {
            Poll::Ready(Ok(()))
        }
        fn poll_close(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), SendError>> {
            self.disconnect();
            Poll::Ready(Ok(()))
        }
    }
}
