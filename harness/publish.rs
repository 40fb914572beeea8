//! Contracts of the publisher combinators.
use crate::common::*;
use crate::nd;
use futures::Stream;
use paladin::queue::*;
use std::cell::Cell;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

/// Records what is published; fails at will.
#[derive(Default)]
struct Log {
    sent: Shared2<[u8; 4]>,
    n: Shared2<usize>,
    closes: Shared2<usize>,
    fail_at: usize,
}
#[derive(Default)]
struct Shared2<T: Copy>(Cell<T>);
unsafe impl<T: Copy> Sync for Shared2<T> {}
unsafe impl<T: Copy> Send for Shared2<T> {}
#[derive(Clone)]
struct P(Arc<Log>);
#[async_trait::async_trait]
impl Publisher<u8> for P {
    async fn publish(&self, x: &u8) -> anyhow::Result<()> {
        let l = &self.0;
        let n = l.n.0.get();
        let mut s = l.sent.0.get();
        s[n] = *x;
        l.sent.0.set(s);
        l.n.0.set(n + 1);
        res(n != l.fail_at)
    }
    async fn close(&self) -> anyhow::Result<()> {
        self.0.closes.0.set(self.0.closes.0.get() + 1);
        res(self.0.fail_at != 7)
    }
}
fn log() -> (Arc<Log>, P) {
    let l = Arc::new(Log { fail_at: if nd::any_bool() { 0 } else { 7 }, ..Default::default() });
    (l.clone(), P(l))
}

/// with: publishes f(payload) exactly once iff f succeeded.
#[cfg_attr(kani, kani::proof)]
fn with() {
    let (l, p) = log();
    let fok = nd::any_bool();
    let k = nd::any_u8();
    let w = ManuallyDrop::new(p.with(move |x: &u8| {
        res(fok)?;
        Ok(x.wrapping_add(k))
    }));
    let x = nd::any_u8();
    let r = nd::block_on(w.publish(&x));
    if fok {
        post!(l.n.0.get() == 1 && l.sent.0.get()[0] == x.wrapping_add(k), "the transformed payload is published exactly once");
        post!(r.is_ok() == (l.fail_at != 0), "the result of the inner publisher is reported");
    } else {
        post!(l.n.0.get() == 0, "nothing is published if the transformation failed");
        post!(r.is_err(), "a failed transformation is reported");
    }
    cover!(r.is_ok(), "ok");
    forget(r);
    let c = nd::block_on(Publisher::<u8>::close(&*w));
    post!(l.closes.0.get() == 1, "closing closes the inner publisher");
    post!(c.is_ok() == (l.fail_at != 7), "the result of closing is reported");
    forget(c);
}
/// Box and Pin forward.
#[cfg_attr(kani, kani::proof)]
fn forward() {
    let (l, p) = log();
    let x = nd::any_u8();
    let (r, c) = if nd::any_bool() {
        let b: Box<dyn Publisher<u8> + Send + Sync + Unpin> = Box::new(p);
        let b = ManuallyDrop::new(b);
        (nd::block_on(b.publish(&x)), nd::block_on(b.close()))
    } else {
        let b = ManuallyDrop::new(Pin::new(Box::new(p)));
        (nd::block_on(b.publish(&x)), nd::block_on(b.close()))
    };
    post!(l.n.0.get() == 1 && l.sent.0.get()[0] == x, "forwarded exactly once");
    post!(r.is_ok() == (l.fail_at != 0), "the result is forwarded");
    post!(l.closes.0.get() == 1 && c.is_ok() == (l.fail_at != 7), "closing is forwarded");
    forget((r, c));
}

/// A source of N items that may fail at any of them and may suspend once.
struct Src {
    i: usize,
    n: usize,
    fail_at: usize,
}
impl Stream for Src {
    type Item = anyhow::Result<u8>;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let i = self.i;
        if i >= self.n {
            return Poll::Ready(None);
        }
        self.i += 1;
        Poll::Ready(Some(if i == self.fail_at { Err(err()) } else { Ok(i as u8 + 10) }))
    }
}
/// publish_all (bounded: 2 items): on Ok every item was published exactly once;
/// any failure is reported.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
fn publish_all() {
    const N: usize = 2;
    let src_fail = nd::below(N + 1);
    let snk_fail = nd::below(N + 1);
    let l = Arc::new(Log { fail_at: snk_fail, ..Default::default() });
    let p = ManuallyDrop::new(P(l.clone()));
    let lim = match nd::below(3) {
        0 => None,
        1 => Some(1),
        _ => Some(10),
    };
    let r = nd::block_on(p.publish_all(Src { i: 0, n: N, fail_at: src_fail }, lim));
    if r.is_ok() {
        post!(l.n.0.get() == N, "Ok: every item was published, once");
        let s = l.sent.0.get();
        post!((s[0] == 10 && s[1] == 11) || (s[0] == 11 && s[1] == 10), "Ok: the items were published");
        post!(src_fail == N && snk_fail == N, "a failure is reported");
    } else {
        post!(src_fail < N || snk_fail < N, "no failure is made up");
    }
    post!(l.closes.0.get() == 0, "the publisher stays open");
    cover!(r.is_ok(), "ok");
    cover!(r.is_err(), "err");
    forget(r);
}
harnesses![with, forward, publish_all];
