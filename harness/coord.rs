//! Coordinated channel: contracts of CoordinatedPublisher, CoordinatedStream,
//! CoordinatedAcker and ChannelState, for every state (closed, pending).
use crate::common::*;
use crate::nd;
use futures::Stream;
use paladin::acker::Acker;
use paladin::channel::coordinated_channel::{
    coordinated_publisher::CoordinatedPublisher,
    coordinated_stream::{CoordinatedAcker, CoordinatedStream},
    ChannelState,
};
use paladin::queue::Publisher;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

/// The inner publisher: its contract is "Ok or Err, at will".
struct Sink {
    state: Arc<ChannelState>,
    ok: bool,
    close_ok: bool,
    sent: Shared<std::cell::Cell<(usize, u8)>>,
    pending_at_send: Shared<std::cell::Cell<usize>>,
    closes: Shared<std::cell::Cell<usize>>,
}
#[async_trait::async_trait]
impl Publisher<u8> for Sink {
    async fn publish(&self, p: &u8) -> anyhow::Result<()> {
        self.sent.0.set((self.sent.0.get().0 + 1, *p));
        self.pending_at_send.0.set(self.state.verif_num_pending_sends());
        res(self.ok)
    }
    async fn close(&self) -> anyhow::Result<()> {
        self.closes.0.set(self.closes.0.get() + 1);
        res(self.close_ok)
    }
}
fn sink(state: &Arc<ChannelState>) -> Sink {
    Sink {
        state: state.clone(),
        ok: nd::any_bool(),
        close_ok: nd::any_bool(),
        sent: Shared(Default::default()),
        pending_at_send: Shared(Default::default()),
        closes: Shared(Default::default()),
    }
}
fn any_state() -> (bool, usize, Arc<ChannelState>) {
    let (c, n) = (nd::any_bool(), nd::any_usize());
    nd::assume(n < usize::MAX);
    (c, n, Arc::new(ChannelState::verif_new(c, n)))
}

/// publish: closed => Err, nothing sent, nothing counted; otherwise the payload
/// is sent exactly once, counted before it becomes visible to the receiver, and
/// stays counted iff it was sent.
#[cfg_attr(kani, kani::proof)]
fn publish() {
    let (c, n, st) = any_state();
    let s = sink(&st);
    let ok = s.ok;
    let s = Arc::new(s);
    let p = ManuallyDrop::new(CoordinatedPublisher::<u8, _>::new(Fwd(s.clone()), st.clone()));
    let x = nd::any_u8();
    let r = nd::block_on(p.publish(&x));
    cover!(r.is_ok(), "published");
    cover!(c, "closed");
    if c {
        post!(r.is_err(), "publishing on a closed channel fails");
        post!(s.sent.0.get().0 == 0, "nothing is sent on a closed channel");
        post!(st.verif_num_pending_sends() == n, "a rejected publish is not counted");
    } else {
        post!(s.sent.0.get() == (1, x), "the payload is sent exactly once");
        post!(s.pending_at_send.0.get() == n + 1, "a send is counted before it can be received");
        post!(r.is_ok() == ok, "publish reports the result of the inner publisher");
        post!(
            st.verif_num_pending_sends() == if ok { n + 1 } else { n },
            "exactly the successful sends are pending"
        );
    }
    post!(st.verif_closed() == c, "publish does not change closedness");
    forget(r);
}
struct Fwd(Arc<Sink>);
#[async_trait::async_trait]
impl Publisher<u8> for Fwd {
    async fn publish(&self, p: &u8) -> anyhow::Result<()> {
        self.0.publish(p).await
    }
    async fn close(&self) -> anyhow::Result<()> {
        self.0.close().await
    }
}

/// close: closes the inner publisher, then marks the channel closed.
#[cfg_attr(kani, kani::proof)]
fn close() {
    let (c, n, st) = any_state();
    let s = Arc::new(sink(&st));
    let p = ManuallyDrop::new(CoordinatedPublisher::<u8, _>::new(Fwd(s.clone()), st.clone()));
    let r = nd::block_on(p.close());
    post!(s.closes.0.get() >= 1, "the inner publisher is closed");
    post!(r.is_ok() == s.close_ok, "close reports the result of the inner publisher");
    if r.is_ok() {
        post!(st.verif_closed(), "closed after a successful close");
    }
    if c {
        post!(st.verif_closed(), "a closed channel stays closed");
    }
    post!(st.verif_num_pending_sends() == n, "closing does not discard pending sends");
    cover!(r.is_ok() && !c, "close succeeds");
    forget(r);
}

/// Dropping the publisher closes the channel.
#[cfg_attr(kani, kani::proof)]
fn drop_closes() {
    let (_, n, st) = any_state();
    let s = Arc::new(sink(&st));
    let s2 = ManuallyDrop::new(s.clone());
    drop(CoordinatedPublisher::<u8, _>::new(Fwd(s), st.clone()));
    post!(st.verif_closed(), "dropping the publisher closes the channel");
    post!(st.verif_num_pending_sends() == n, "dropping does not discard pending sends");
    forget(s2);
}

/// ack and nack, in any combination and number, discount the item exactly
/// once; the receiver is woken when that was the last one.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(4))]
fn ack_once() {
    let (c, n, st) = any_state();
    nd::assume(n > 0);
    unsafe { QUEUED = 0 }
    let mut s = ManuallyDrop::new(CoordinatedStream::new(Source { registered: Shared(Default::default()) }, st.clone()));
    let r = nd::with_cx(|cx| unsafe { Pin::new_unchecked(&mut *s) }.poll_next(cx));
    post!(matches!(r, Poll::Pending), "a receiver waits for unacknowledged items");
    let wakes = nd::wakes();
    let a = ManuallyDrop::new(CoordinatedAcker::new(st.clone(), nd::waker()));
    let mut i = 0;
    while i < 3 {
        let r = if nd::any_bool() {
            nd::block_on(Acker::ack(&*a))
        } else {
            nd::block_on(Acker::nack(&*a))
        };
        post!(r.is_ok(), "acknowledging succeeds");
        forget(r);
        post!(st.verif_num_pending_sends() == n - 1, "an item is discounted exactly once");
        if n == 1 {
            post!(nd::wakes() > wakes, "the receiver is woken by the last acknowledgement");
        }
        i += 1;
    }
    post!(st.verif_closed() == c, "acknowledging does not change closedness");
    cover!(n == 1, "last");
}

/// The inner stream: an unbounded source that is never exhausted while it can
/// still be sent to.
static mut QUEUED: usize = 0; // sent, not yet delivered
static mut UNACKED: usize = 0; // delivered, not yet acknowledged
static mut ENV: bool = false;
static mut ST: Option<Arc<ChannelState>> = None;
static mut ACKER: Option<ManuallyDrop<CoordinatedAcker>> = None;

/// What other threads may do at any point: publish, close and acknowledge, as
/// their contracts above say.
fn environment() {
    unsafe {
        if !ENV {
            return;
        }
        ENV = false;
        let st = ST.as_ref().unwrap();
        if !st.verif_closed() {
            let k = nd::below(3);
            st.verif_set(false, st.verif_num_pending_sends() + k);
            QUEUED += k;
            // a publish in flight is already counted, but not yet visible
        }
        if UNACKED > 0 && nd::any_bool() {
            UNACKED -= 1;
            ACKER.as_ref().unwrap().ack();
        }
        if !st.verif_closed() && nd::any_bool() {
            st.close();
        }
        ENV = true;
    }
}
#[cfg(kani)]
fn env_load_usize(a: &std::sync::atomic::AtomicUsize, _: std::sync::atomic::Ordering) -> usize {
    environment();
    unsafe { *a.as_ptr() }
}
#[cfg(kani)]
fn env_load_bool(a: &std::sync::atomic::AtomicBool, _: std::sync::atomic::Ordering) -> bool {
    environment();
    unsafe { *a.as_ptr() }
}
struct Source {
    registered: Shared<std::cell::Cell<bool>>,
}
impl Stream for Source {
    type Item = u8;
    fn poll_next(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Option<u8>> {
        environment();
        unsafe {
            if QUEUED > 0 && nd::any_bool() {
                QUEUED -= 1;
                UNACKED += 1;
                return Poll::Ready(Some(nd::any_u8()));
            }
            // Pending only when empty (a late wake-up counts as a wake-up)
            nd::assume(QUEUED == 0);
        }
        self.registered.0.set(true);
        Poll::Pending
    }
}

/// poll_next, with other threads acting at every shared access: the stream ends
/// only when the channel is closed and every sent item was acknowledged; an item
/// is yielded with a live acker; and it is never left waiting for nothing.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::stub(std::sync::atomic::Atomic::<usize>::load, env_load_usize))]
#[cfg_attr(kani, kani::stub(std::sync::atomic::Atomic::<bool>::load, env_load_bool))]
fn poll_next() {
    let c = nd::any_bool();
    let q = nd::any_usize();
    let u = nd::any_bool() as usize; // one outstanding acker, and others
    let other = nd::any_usize(); // delivered earlier, acknowledged by nobody
    nd::assume(q < 1 << 30 && other < 1 << 30);
    let st = Arc::new(ChannelState::verif_new(c, q + u + other));
    unsafe {
        QUEUED = q;
        UNACKED = u;
        ST = Some(st.clone());
        ACKER = Some(ManuallyDrop::new(CoordinatedAcker::new(st.clone(), nd::waker())));
        ENV = true;
    }
    let mut s = ManuallyDrop::new(CoordinatedStream::new(Source { registered: Shared(Default::default()) }, st.clone()));
    let wakes = nd::wakes();
    let r = nd::with_cx(|cx| unsafe { Pin::new_unchecked(&mut *s) }.poll_next(cx));
    if r.is_pending() {
        environment();
    }
    unsafe { ENV = false }
    match r {
        Poll::Ready(None) => {
            cover!(true, "ends");
            post!(st.verif_closed(), "the stream ends only after the sender is closed");
            post!(
                unsafe { QUEUED == 0 && UNACKED == 0 } && other == 0,
                "the stream ends only after every sent item was received and acknowledged"
            );
        }
        Poll::Ready(Some((_, a))) => {
            cover!(true, "yields");
            let n = st.verif_num_pending_sends();
            post!(unsafe { n == QUEUED + UNACKED + other }, "receiving does not discount an item");
            a.ack();
            post!(st.verif_num_pending_sends() == n - 1, "acknowledging the item discounts it");
            forget(a);
        }
        Poll::Pending => {
            cover!(true, "waits");
            let n = st.verif_num_pending_sends();
            post!(unsafe { n == QUEUED + UNACKED + other }, "polling does not change the count");
            post!(
                nd::wakes() > wakes || !(st.verif_closed() && n == 0),
                "a receiver never waits on a channel that is closed and drained"
            );
        }
    }
}

/// A receiver that waits on an open, drained channel is woken by closing it.
#[cfg_attr(kani, kani::proof)]
fn close_wakes() {
    let n = nd::any_usize();
    nd::assume(n < usize::MAX);
    let st = Arc::new(ChannelState::verif_new(false, n));
    unsafe {
        ST = Some(st.clone());
        QUEUED = 0;
    }
    let mut s = ManuallyDrop::new(CoordinatedStream::new(Source { registered: Shared(Default::default()) }, st.clone()));
    let p = CoordinatedPublisher::<u8, _>::new(Fwd(Arc::new(sink(&st))), st.clone());
    let r = nd::with_cx(|cx| unsafe { Pin::new_unchecked(&mut *s) }.poll_next(cx));
    post!(matches!(r, Poll::Pending), "an open channel without items is pending");
    let wakes = nd::wakes();
    if nd::any_bool() {
        let c = nd::block_on(p.close());
        nd::assume(c.is_ok());
        forget((c, p));
    } else {
        drop(p);
    }
    if n == 0 {
        post!(nd::wakes() > wakes, "closing wakes the receiver");
    }
    let r = nd::with_cx(|cx| unsafe { Pin::new_unchecked(&mut *s) }.poll_next(cx));
    post!(matches!(r, Poll::Ready(None)) == (n == 0), "a closed channel ends iff it is drained");
}

harnesses![publish, close, drop_closes, ack_once, poll_next, close_wakes];
