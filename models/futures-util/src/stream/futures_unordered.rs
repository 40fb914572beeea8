//! Contract of `FuturesUnordered`: a set of futures; `poll_next` polls members
//! until one completes and yields its output, `None` on the empty set.
//! (Members are polled in slot order, all of them at every poll: polling a
//! future that was not woken is always permitted.)
use alloc::boxed::Box;
use alloc::vec::Vec;
use core::cell::UnsafeCell;
use core::fmt;
use core::iter::FromIterator;
use core::pin::Pin;
use futures_core::future::Future;
use futures_core::stream::{FusedStream, Stream};
use futures_core::task::{Context, Poll};

const CAP: usize = 3;
/// A set of futures which may complete in any order.
#[must_use = "streams do nothing unless polled"]
pub struct FuturesUnordered<Fut> {
    slots: UnsafeCell<[Option<Pin<Box<Fut>>>; CAP]>,
    terminated: bool,
}
unsafe impl<Fut: Send> Send for FuturesUnordered<Fut> {}
unsafe impl<Fut: Send + Sync> Sync for FuturesUnordered<Fut> {}
impl<Fut> Unpin for FuturesUnordered<Fut> {}
impl<Fut> Default for FuturesUnordered<Fut> {
    fn default() -> Self {
        Self::new()
    }
}
impl<Fut> FuturesUnordered<Fut> {
    /// new
    pub fn new() -> Self {
        Self { slots: UnsafeCell::new([const { None }; CAP]), terminated: false }
    }
    fn s(&self) -> &mut [Option<Pin<Box<Fut>>>; CAP] {
        unsafe { &mut *self.slots.get() }
    }
    /// len
    pub fn len(&self) -> usize {
        let mut n = 0;
        let mut i = 0;
        while i < CAP {
            if self.s()[i].is_some() {
                n += 1;
            }
            i += 1;
        }
        n
    }
    /// is_empty
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    /// push
    pub fn push(&self, future: Fut) {
        let mut i = 0;
        while i < CAP {
            if self.s()[i].is_none() {
                self.s()[i] = Some(Box::pin(future));
                return;
            }
            i += 1;
        }
        kenv::capacity_exceeded()
    }
    /// clear
    pub fn clear(&mut self) {
        *self.s() = [const { None }; CAP];
    }
    /// iter
    pub fn iter(&self) -> Iter<'_, Fut>
    where
        Fut: Unpin,
    {
        Iter(self.s().iter().filter_map(|f| f.as_deref()).collect::<Vec<_>>().into_iter())
    }
    /// iter_mut
    pub fn iter_mut(&mut self) -> IterMut<'_, Fut>
    where
        Fut: Unpin,
    {
        IterMut(self.s().iter_mut().filter_map(|f| f.as_deref_mut()).collect::<Vec<_>>().into_iter())
    }
}
impl<Fut: Future> Stream for FuturesUnordered<Fut> {
    type Item = Fut::Output;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let mut any = false;
        let mut i = 0;
        while i < CAP {
            if let Some(f) = &mut self.s()[i] {
                any = true;
                if let Poll::Ready(v) = f.as_mut().poll(cx) {
                    self.s()[i] = None;
                    return Poll::Ready(Some(v));
                }
            }
            i += 1;
        }
        if any {
            Poll::Pending
        } else {
            self.terminated = true;
            Poll::Ready(None)
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.len(), Some(self.len()))
    }
}
impl<Fut: Future> FusedStream for FuturesUnordered<Fut> {
    fn is_terminated(&self) -> bool {
        self.terminated
    }
}
impl<Fut> fmt::Debug for FuturesUnordered<Fut> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("FuturesUnordered")
    }
}
impl<Fut> FromIterator<Fut> for FuturesUnordered<Fut> {
    fn from_iter<I: IntoIterator<Item = Fut>>(iter: I) -> Self {
        let acc = Self::new();
        for f in iter {
            acc.push(f);
        }
        acc
    }
}
impl<Fut> Extend<Fut> for FuturesUnordered<Fut> {
    fn extend<I: IntoIterator<Item = Fut>>(&mut self, iter: I) {
        for f in iter {
            self.push(f);
        }
    }
}
impl<Fut: Unpin> IntoIterator for FuturesUnordered<Fut> {
    type Item = Fut;
    type IntoIter = IntoIter<Fut>;
    fn into_iter(self) -> IntoIter<Fut> {
        let mut v = Vec::new();
        for f in self.slots.into_inner() {
            if let Some(f) = f {
                v.push(*Pin::into_inner(f));
            }
        }
        IntoIter(v.into_iter())
    }
}
/// iterator
#[derive(Debug)]
pub struct Iter<'a, Fut: Unpin>(alloc::vec::IntoIter<&'a Fut>);
/// iterator
#[derive(Debug)]
pub struct IterMut<'a, Fut: Unpin>(alloc::vec::IntoIter<&'a mut Fut>);
/// iterator
#[derive(Debug)]
pub struct IntoIter<Fut: Unpin>(alloc::vec::IntoIter<Fut>);
impl<'a, Fut: Unpin> Iterator for Iter<'a, Fut> {
    type Item = &'a Fut;
    fn next(&mut self) -> Option<&'a Fut> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<'a, Fut: Unpin> Iterator for IterMut<'a, Fut> {
    type Item = &'a mut Fut;
    fn next(&mut self) -> Option<&'a mut Fut> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<Fut: Unpin> Iterator for IntoIter<Fut> {
    type Item = Fut;
    fn next(&mut self) -> Option<Fut> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<Fut: Unpin> ExactSizeIterator for Iter<'_, Fut> {}
impl<Fut: Unpin> ExactSizeIterator for IterMut<'_, Fut> {}
impl<Fut: Unpin> ExactSizeIterator for IntoIter<Fut> {}
