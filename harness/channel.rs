//! Contracts of QueueChannel and QueueChannelFactory against any connection.
use crate::common::*;
use crate::nd;
use anyhow::Result;
use futures::Stream;
use paladin::channel::queue::*;
use paladin::channel::*;
use paladin::queue::*;
use paladin::serializer::Serializable;
use std::pin::Pin;
use std::task::{Context, Poll};

/// What the connection was asked for.
struct Log {
    declares: usize,
    name: [u8; 8],
    options: Option<QueueOptions>,
    ok: bool,
    consumers: usize,
    consumer: [u8; 8],
    consumer_ok: bool,
    deletes: usize,
    deleted: [u8; 8],
    closes: usize,
    handed: usize,
}
static mut L: Log = Log {
    declares: 0,
    name: [0; 8],
    options: None,
    ok: true,
    consumers: 0,
    consumer: [0; 8],
    consumer_ok: true,
    deletes: 0,
    deleted: [0; 8],
    closes: 0,
    handed: 0,
};
fn l() -> &'static mut Log {
    unsafe { &mut L }
}
fn start() {
    *l() = Log {
        declares: 0,
        name: [0; 8],
        options: None,
        ok: nd::any_bool(),
        consumers: 0,
        consumer: [0; 8],
        consumer_ok: nd::any_bool(),
        deletes: 0,
        deleted: [0; 8],
        closes: 0,
        handed: 0,
    };
}
fn bytes(s: &str) -> [u8; 8] {
    let b = s.as_bytes();
    let mut r = [0; 8];
    assert!(b.len() < 8, "model: name too long");
    let mut i = 0;
    while i < b.len() {
        r[i] = b[i];
        i += 1;
    }
    r
}
#[derive(Clone)]
struct Conn;
#[derive(Clone)]
struct Handle;
struct Pub;
struct Con<T>(std::marker::PhantomData<T>);
#[async_trait::async_trait]
impl Connection for Conn {
    type QueueHandle = Handle;
    async fn close(&self) -> Result<()> {
        l().closes += 1;
        res(l().ok)
    }
    async fn declare_queue(&self, name: &str, options: QueueOptions) -> Result<Handle> {
        l().declares += 1;
        l().name = bytes(name);
        l().options = Some(options);
        if l().ok {
            Ok(Handle)
        } else {
            Err(err())
        }
    }
    async fn delete_queue(&self, name: &str) -> Result<()> {
        l().deletes += 1;
        l().deleted = bytes(name);
        res(l().ok)
    }
}
#[async_trait::async_trait]
impl QueueHandle for Handle {
    type Acker = paladin::acker::NoopAcker;
    type Consumer<T: Serializable> = Con<T>;
    type Publisher<T: Serializable> = Pub;
    fn publisher<T: Serializable>(&self) -> Pub {
        l().handed += 1;
        Pub
    }
    async fn declare_consumer<T: Serializable>(&self, name: &str) -> Result<Con<T>> {
        l().consumers += 1;
        l().consumer = bytes(name);
        if l().consumer_ok {
            Ok(Con(std::marker::PhantomData))
        } else {
            Err(err())
        }
    }
}
#[async_trait::async_trait]
impl<T: Sync> Publisher<T> for Pub {
    async fn publish(&self, _: &T) -> Result<()> {
        Ok(())
    }
    async fn close(&self) -> Result<()> {
        Ok(())
    }
}
impl<T> Stream for Con<T> {
    type Item = (T, paladin::acker::NoopAcker);
    fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        Poll::Pending
    }
}
/// Nothing here waits unless the connection does.
fn now<F: std::future::Future>(f: F) -> F::Output {
    let mut f = ManuallyDrop::new(f);
    match nd::with_cx(|cx| unsafe { Pin::new_unchecked(&mut *f) }.poll(cx)) {
        Poll::Ready(r) => r,
        Poll::Pending => panic!("[P] a channel waits only for its connection"),
    }
}
fn any_type() -> ChannelType {
    if nd::any_bool() {
        ChannelType::ExactlyOnce
    } else {
        ChannelType::Broadcast
    }
}
fn any_name() -> ([u8; 8], String) {
    let c = b'a' + nd::below(3) as u8;
    let s = String::from_utf8(vec![c, b'x']);
    match s {
        Ok(s) => (bytes(&s), s),
        Err(_) => panic!(),
    }
}
/// A channel, got or issued; its name and type.
fn any_channel() -> ([u8; 8], ChannelType, ManuallyDrop<QueueChannel<Conn>>) {
    start();
    let f = ManuallyDrop::new(QueueChannelFactory::new(Conn));
    let t = any_type();
    let (n, name) = any_name();
    let r = now(f.get(name, t));
    let c = match r {
        Ok(c) => ManuallyDrop::new(c),
        Err(e) => {
            forget(e);
            panic!("[P] a channel is obtained")
        }
    };
    if nd::any_bool() {
        (n, t, ManuallyDrop::new((*c).clone()))
    } else {
        (n, t, c)
    }
}
fn declared(n: [u8; 8], t: ChannelType) {
    post!(l().declares == 1, "the queue is declared once");
    post!(l().name == n, "the queue is the one of the channel's identifier");
    match l().options {
        Some(o) => {
            post!(
                (o.syndication_mode == SyndicationMode::ExactlyOnce) == (t == ChannelType::ExactlyOnce),
                "an exactly-once channel uses an exactly-once queue, a broadcast channel a broadcast queue"
            );
            post!(o.delivery_mode == DeliveryMode::Persistent, "messages are persistent");
            post!(o.durability == QueueDurability::NonDurable, "the queue is not durable");
        }
        None => post!(false, "the queue is declared once"),
    }
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
fn sender() {
    let (n, t, c) = any_channel();
    let r = ManuallyDrop::new(now(c.sender::<u8>()));
    declared(n, t);
    post!(r.is_ok() == l().ok, "an error of the connection is reported, and only then");
    post!(l().handed == l().ok as usize, "the sender is a publisher of that queue");
    post!(l().deletes == 0 && l().closes == 0 && l().consumers == 0, "nothing else is done to the connection");
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
fn receiver() {
    let (n, t, c) = any_channel();
    let r = ManuallyDrop::new(now(c.receiver::<u8>()));
    declared(n, t);
    post!(r.is_ok() == (l().ok && l().consumer_ok), "an error of the connection is reported, and only then");
    post!(l().consumers == l().ok as usize, "the receiver is a consumer of that queue");
    post!(l().deletes == 0 && l().closes == 0, "nothing else is done to the connection");
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
fn close() {
    let (_, _, c) = any_channel();
    let r = ManuallyDrop::new(now(c.close()));
    post!(l().closes == 1 && r.is_ok() == l().ok, "closing closes the connection and reports its error");
}
#[cfg(not(kani))]
fn release() {
    let (n, _, c) = any_channel();
    nd::run(async {
        c.release();
        for _ in 0..5 {
            tokio::task::yield_now().await;
        }
    });
    post!(l().deletes == 1 && l().deleted == n, "releasing a channel deletes its queue and no other");
    post!(l().declares == 0 && l().closes == 0, "releasing does nothing else");
}
/// issue: the channel is the one of the returned identifier.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
fn issue() {
    start();
    let f = ManuallyDrop::new(QueueChannelFactory::new(Conn));
    let t = any_type();
    match now(f.issue(t)) {
        Ok((id, c)) => {
            let (id, c) = (ManuallyDrop::new(id), ManuallyDrop::new(c));
            l().ok = true;
            forget(now(c.sender::<u8>()));
            declared(bytes(&id), t);
        }
        Err(e) => {
            forget(e);
            post!(false, "a channel is issued");
        }
    }
}
/// Issued identifiers and consumer names are fresh (sampled: 62^5 names).
#[cfg(not(kani))]
fn fresh() {
    start();
    l().ok = true;
    l().consumer_ok = true;
    let f = QueueChannelFactory::new(Conn);
    let n = 20_000;
    let mut ids: Vec<String> = (0..n).map(|_| now(f.issue(ChannelType::ExactlyOnce)).unwrap().0).collect();
    ids.sort();
    ids.dedup();
    post!(n - ids.len() <= 5, "issued identifiers are fresh");
    let c = now(f.get("x".into(), ChannelType::Broadcast)).unwrap();
    let mut names: Vec<_> = (0..n)
        .map(|_| {
            now(c.receiver::<u8>()).unwrap();
            l().consumer
        })
        .collect();
    names.sort();
    names.dedup();
    post!(n - names.len() <= 5, "receivers are separate consumers");
}
/// The channels of the runtime, over the in-memory connection.
#[cfg(all(verif, not(kani)))]
mod dynamic {
    use super::*;
    use crate::log;
    use futures::StreamExt;
    use paladin::queue::in_memory::InMemoryConnection;
    use paladin::runtime::verif::*;
    fn poll<S: Stream<Item = (u8, Box<dyn paladin::acker::Acker>)> + Unpin + ?Sized>(s: &mut S) -> Option<u8> {
        nd::with_cx(|cx| match s.poll_next_unpin(cx) {
            Poll::Ready(Some((x, a))) => {
                post!(crate::now(a.ack()).is_ok(), "a message can be acknowledged");
                Some(x)
            }
            Poll::Ready(None) => panic!("[P] a receiver does not end"),
            Poll::Pending => None,
        })
    }
    pub fn routes() {
        let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
        let _g = rt.enter();
        let f = DynamicChannelFactory::InMemory(QueueChannelFactory::new(InMemoryConnection::new(Default::default())));
        let t = any_type();
        let get = |n: &str| crate::now(f.get(n.to_string(), t)).unwrap();
        let (a, a2, b) = (get("a"), get("a"), get("b"));
        let (mut r1, mut r2) = (crate::now(a.receiver::<u8>()).unwrap(), crate::now(a2.receiver::<u8>()).unwrap());
        let mut rb = crate::now(b.receiver::<u8>()).unwrap();
        let (s1, s2) = (crate::now(a2.sender::<u8>()).unwrap(), crate::now(a.sender::<u8>()).unwrap());
        crate::now(s1.publish(&1)).unwrap();
        crate::now(s2.publish(&2)).unwrap();
        crate::now(s2.close()).unwrap();
        crate::now(s1.publish(&3)).unwrap();
        let mut got = [vec![], vec![]];
        for _ in 0..8 {
            if nd::any_bool() {
                got[0].extend(poll(&mut r1));
            } else {
                got[1].extend(poll(&mut r2));
            }
        }
        while let Some(x) = poll(&mut r1) {
            got[0].push(x)
        }
        while let Some(x) = poll(&mut r2) {
            got[1].push(x)
        }
        match t {
            ChannelType::Broadcast => {
                post!(got == [vec![1, 2, 3], vec![1, 2, 3]], "every receiver of a broadcast channel gets every message, in order")
            }
            ChannelType::ExactlyOnce => {
                let mut all = got.concat();
                all.sort();
                post!(all == [1, 2, 3], "every message of an exactly-once channel goes to exactly one receiver")
            }
        }
        post!(poll(&mut rb).is_none(), "channels of different identifiers are separate");
        // release: the name is free again, other names and channels are unaffected
        crate::now(crate::now(b.sender::<u8>()).unwrap().publish(&9)).unwrap();
        crate::now(s1.publish(&4)).unwrap();
        log("release");
        a.release();
        rt.block_on(async {
            for _ in 0..5 {
                tokio::task::yield_now().await
            }
        });
        let mut r3 = crate::now(get("a").receiver::<u8>()).unwrap();
        post!(poll(&mut r3).is_none(), "the queue of a released channel is deleted");
        post!(poll(&mut rb) == Some(9), "releasing a channel does not affect another");
        let (id, c) = crate::now(f.issue(t)).unwrap();
        let s = crate::now(crate::now(f.get(id, t)).unwrap().sender::<u8>()).unwrap();
        let mut r = crate::now(c.receiver::<u8>()).unwrap();
        crate::now(s.publish(&7)).unwrap();
        post!(poll(&mut r) == Some(7), "an issued channel is the one of its identifier");
    }
}
#[cfg(all(verif, not(kani)))]
use dynamic::routes;
#[cfg(all(not(verif), not(kani)))]
fn routes() {}
#[cfg(not(kani))]
crate::harnesses![sender, receiver, close, release, issue, fresh, routes];
