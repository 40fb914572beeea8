//! Contracts of the acker combinators.
use crate::common::*;
use crate::nd;
use paladin::acker::*;
use std::cell::Cell;
use std::sync::Arc;

struct Rec {
    ok: bool,
    clock: Arc<Shared<Cell<u8>>>,
    /// When `ack` resp. `nack` was called (0: never), and how often in all.
    acked: Shared<Cell<u8>>,
    nacked: Shared<Cell<u8>>,
    calls: Shared<Cell<u8>>,
}
impl Rec {
    fn hit(&self, c: &Cell<u8>) -> anyhow::Result<()> {
        self.clock.0.set(self.clock.0.get() + 1);
        c.set(self.clock.0.get());
        self.calls.0.set(self.calls.0.get() + 1);
        res(self.ok)
    }
}
#[async_trait::async_trait]
impl Acker for Rec {
    async fn ack(&self) -> anyhow::Result<()> {
        self.hit(&self.acked.0)
    }
    async fn nack(&self) -> anyhow::Result<()> {
        self.hit(&self.nacked.0)
    }
}
fn clock() -> Arc<Shared<Cell<u8>>> {
    Arc::new(Shared(Cell::new(0)))
}
fn rec(clock: &Arc<Shared<Cell<u8>>>) -> Arc<Rec> {
    Arc::new(Rec {
        ok: nd::any_bool(),
        clock: clock.clone(),
        acked: Shared(Cell::new(0)),
        nacked: Shared(Cell::new(0)),
        calls: Shared(Cell::new(0)),
    })
}
fn at(a: &Rec, ack: bool) -> u8 {
    if ack {
        a.acked.0.get()
    } else {
        a.nacked.0.get()
    }
}

/// The second acker is only told once the first one has succeeded; the result is
/// Ok iff both succeeded; ack is never turned into nack or vice versa.
#[cfg_attr(kani, kani::proof)]
fn composed() {
    let k = clock();
    let (a, b) = (rec(&k), rec(&k));
    let c = ManuallyDrop::new(ComposedAcker::new(a.clone(), b.clone()));
    let ack = nd::any_bool();
    let r = if ack { nd::block_on(c.ack()) } else { nd::block_on(c.nack()) };
    post!(at(&a, ack) == 1 && a.calls.0.get() == 1, "the first acker is told first, exactly once");
    if a.ok {
        post!(at(&b, ack) == 2 && b.calls.0.get() == 1, "then the second acker, exactly once");
    } else {
        post!(b.calls.0.get() == 0, "the second acker is not told if the first one failed");
    }
    post!(r.is_ok() == (a.ok && b.ok), "Ok iff every acker succeeded");
    cover!(r.is_ok() && ack, "acked");
    cover!(r.is_ok() && !ack, "nacked");
    forget(r);
}
/// The composition the runtime uses: boxed ackers inside a composition.
#[cfg_attr(kani, kani::proof)]
fn composed_boxed() {
    let k = clock();
    let (a, b) = (rec(&k), rec(&k));
    let fst: Box<dyn Acker> = Box::new(a.clone());
    let c: Box<dyn Acker> = Box::new(ComposedAcker::new(fst, b.clone()));
    let c = ManuallyDrop::new(c);
    let ack = nd::any_bool();
    let r = if ack { nd::block_on(c.ack()) } else { nd::block_on(c.nack()) };
    post!(at(&a, ack) == 1 && a.calls.0.get() == 1, "the original message is told first");
    post!(b.calls.0.get() == a.ok as u8, "the channel is told iff the message was told");
    if a.ok {
        post!(at(&b, ack) == 2, "the channel is told the same");
    }
    post!(r.is_ok() == (a.ok && b.ok), "Ok iff every acker succeeded");
    forget(r);
}
/// Box and Arc forward.
#[cfg_attr(kani, kani::proof)]
fn forward() {
    let k = clock();
    let a = rec(&k);
    let ack = nd::any_bool();
    let r = match (nd::any_bool(), ack) {
        (false, true) => nd::block_on(Acker::ack(&*ManuallyDrop::new(Box::new(a.clone())))),
        (false, false) => nd::block_on(Acker::nack(&*ManuallyDrop::new(Box::new(a.clone())))),
        (true, true) => nd::block_on(Acker::ack(&a)),
        (true, false) => nd::block_on(Acker::nack(&a)),
    };
    post!(at(&a, ack) == 1 && a.calls.0.get() == 1, "forwarded exactly once, as is");
    post!(r.is_ok() == a.ok, "the result is forwarded");
    forget(r);
}
/// The no-op acker always succeeds.
#[cfg_attr(kani, kani::proof)]
fn noop() {
    let a = NoopAcker::new();
    let r = if nd::any_bool() { nd::block_on(a.ack()) } else { nd::block_on(a.nack()) };
    post!(r.is_ok(), "the no-op acker succeeds");
    forget(r);
}
harnesses![composed, composed_boxed, forward, noop];
