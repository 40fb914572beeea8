//! Contract of LeaseGuard: the channel is released exactly once, when the guard
//! is dropped, and never before; the guarded stream is passed through.
use crate::common::*;
use crate::nd;
use futures::Stream;
use paladin::channel::*;
use paladin::serializer::Serializable;
use std::cell::Cell;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

struct Chan(Arc<Shared<Cell<u32>>>);
#[async_trait::async_trait]
impl Channel for Chan {
    type Sender<'a, T: Serializable + 'a> = NoPub;
    type Acker = paladin::acker::NoopAcker;
    type Receiver<'a, T: Serializable + 'a> = NoStream<T>;
    async fn close(&self) -> anyhow::Result<()> {
        self.0 .0.set(self.0 .0.get() + 100);
        Ok(())
    }
    async fn sender<'a, T: Serializable + 'a>(&self) -> anyhow::Result<NoPub> {
        Ok(NoPub)
    }
    async fn receiver<'a, T: Serializable + 'a>(&self) -> anyhow::Result<NoStream<T>> {
        Ok(NoStream(std::marker::PhantomData))
    }
    fn release(&self) {
        self.0 .0.set(self.0 .0.get() + 1)
    }
}
struct NoPub;
#[async_trait::async_trait]
impl<T: Sync> paladin::queue::Publisher<T> for NoPub {
    async fn publish(&self, _: &T) -> anyhow::Result<()> {
        Ok(())
    }
    async fn close(&self) -> anyhow::Result<()> {
        Ok(())
    }
}
struct NoStream<T>(std::marker::PhantomData<T>);
impl<T> Stream for NoStream<T> {
    type Item = (T, paladin::acker::NoopAcker);
    fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        Poll::Pending
    }
}
/// A stream that answers with any of its three outcomes.
struct Src {
    last: Option<Poll<Option<u8>>>,
    polls: u32,
}
impl Stream for Src {
    type Item = u8;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<u8>> {
        let r = match nd::below(3) {
            0 => Poll::Pending,
            1 => Poll::Ready(None),
            _ => Poll::Ready(Some(nd::any_u8())),
        };
        self.last = Some(r);
        self.polls += 1;
        r
    }
}

#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(4))]
fn release() {
    let n = Arc::new(Shared(Cell::new(0)));
    let n2 = ManuallyDrop::new(n.clone());
    let mut g = LeaseGuard::new(Chan(n), Src { last: None, polls: 0 });
    let mut i = 0;
    while i < 3 {
        if nd::any_bool() {
            let p = g.polls;
            let r = nd::with_cx(|cx| Pin::new(&mut g).poll_next(cx));
            post!(g.polls == p + 1 && g.last == Some(r), "polling the guard polls the stream and passes its answer on");
        } else {
            (*g).polls = g.polls.wrapping_add(0);
        }
        post!(n2.0.get() == 0, "the channel is not released while the stream is in use");
        i += 1;
    }
    drop(g);
    post!(n2.0.get() == 1, "the channel is released exactly once when the stream is dropped");
    cover!(true, "released");
}
harnesses![release];
