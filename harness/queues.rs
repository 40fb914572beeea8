//! Contracts of the in-memory queues: exactly-once and broadcast.
use crate::common::*;
use crate::nd;
use futures::Stream;
use paladin::queue::in_memory::*;
use paladin::queue::*;
use paladin::serializer::Serializer;
use std::pin::Pin;
use std::task::{Context, Poll};

type C = InMemoryConsumer<u8>;
fn handle(syndication_mode: SyndicationMode, delivery_mode: DeliveryMode) -> ManuallyDrop<InMemoryQueueHandle> {
    ManuallyDrop::new(InMemoryQueueHandle::new(
        Serializer::Postcard,
        QueueOptions { delivery_mode, syndication_mode, durability: QueueDurability::NonDurable },
    ))
}
fn publish(q: &InMemoryQueueHandle, x: u8) {
    let p = ManuallyDrop::new(q.publisher::<u8>());
    let r = ManuallyDrop::new(now(p.publish(&x)));
    post!(r.is_ok(), "publishing succeeds");
}
fn consumer(q: &InMemoryQueueHandle, name: &str) -> ManuallyDrop<C> {
    match now(q.declare_consumer::<u8>(name)) {
        Ok(c) => ManuallyDrop::new(c),
        Err(e) => {
            forget(e);
            panic!("[P] declaring a consumer succeeds")
        }
    }
}
/// Nothing in the in-memory queue waits except a consumer without message.
fn now<F: std::future::Future>(f: F) -> F::Output {
    let mut f = ManuallyDrop::new(f);
    match nd::with_cx(|cx| unsafe { Pin::new_unchecked(&mut *f) }.poll(cx)) {
        Poll::Ready(r) => r,
        Poll::Pending => panic!("[P] publishing and declaring do not wait"),
    }
}
#[derive(PartialEq, Debug, Clone, Copy)]
enum Got {
    Wait,
    Item(u8),
    End,
}
use Got::*;
fn poll(c: &mut C) -> Got {
    match nd::with_cx(|cx| Pin::new(c).poll_next(cx)) {
        Poll::Pending => Wait,
        Poll::Ready(Some((x, a))) => {
            forget(a);
            Item(x)
        }
        Poll::Ready(None) => End,
    }
}
fn any_mode() -> DeliveryMode {
    if nd::any_bool() {
        DeliveryMode::Persistent
    } else {
        DeliveryMode::Ephemeral
    }
}

/// Two consumers, one declared late; every message once, in order.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
#[cfg_attr(kani, kani::stub(Serializer::to_bytes, byte_serializer::to_bytes))]
#[cfg_attr(kani, kani::stub(Serializer::from_bytes, byte_serializer::from_bytes))]
#[cfg_attr(kani, kani::stub(<std::hash::DefaultHasher as std::hash::Hasher>::write, hash::write))]
#[cfg_attr(kani, kani::stub(<std::hash::DefaultHasher as std::hash::Hasher>::finish, hash::finish))]
#[cfg_attr(kani, kani::stub(std::hash::RandomState::new, hash::random_state))]
fn eo_once() {
    let q = handle(SyndicationMode::ExactlyOnce, any_mode());
    let x = [nd::any_u8(), nd::any_u8()];
    let late = nd::any_bool();
    let mut a = consumer(&q, "a");
    if late {
        publish(&q, x[0]);
    }
    let mut b = consumer(&q, if nd::any_bool() { "a" } else { "b" });
    if !late {
        publish(&q, x[0]);
    }
    publish(&q, x[1]);
    let first = nd::any_bool();
    post!(poll(if first { &mut a } else { &mut b }) == Item(x[0]), "the first message comes first, to whoever asks");
    let second = nd::any_bool();
    post!(poll(if second { &mut a } else { &mut b }) == Item(x[1]), "the second message comes second, to whoever asks");
    post!(poll(&mut a) == Wait && poll(&mut b) == Wait, "each message is delivered once, and the queue then waits");
}
/// A consumer that waits; the message published then is delivered.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
#[cfg_attr(kani, kani::stub(Serializer::to_bytes, byte_serializer::to_bytes))]
#[cfg_attr(kani, kani::stub(Serializer::from_bytes, byte_serializer::from_bytes))]
#[cfg_attr(kani, kani::stub(<std::hash::DefaultHasher as std::hash::Hasher>::write, hash::write))]
#[cfg_attr(kani, kani::stub(<std::hash::DefaultHasher as std::hash::Hasher>::finish, hash::finish))]
#[cfg_attr(kani, kani::stub(std::hash::RandomState::new, hash::random_state))]
fn eo_wait() {
    let q = handle(SyndicationMode::ExactlyOnce, any_mode());
    let mut a = consumer(&q, "a");
    post!(poll(&mut a) == Wait, "a consumer waits while there is no message");
    let x = nd::any_u8();
    publish(&q, x);
    post!(poll(&mut a) == Item(x), "the message is delivered with its content");
    post!(poll(&mut a) == Wait, "each message is delivered once");
}
/// Consumers declared before publication each get each message once, in order.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
#[cfg_attr(kani, kani::stub(Serializer::to_bytes, byte_serializer::to_bytes))]
#[cfg_attr(kani, kani::stub(Serializer::from_bytes, byte_serializer::from_bytes))]
#[cfg_attr(kani, kani::stub(<std::hash::DefaultHasher as std::hash::Hasher>::write, hash::write))]
#[cfg_attr(kani, kani::stub(<std::hash::DefaultHasher as std::hash::Hasher>::finish, hash::finish))]
#[cfg_attr(kani, kani::stub(std::hash::RandomState::new, hash::random_state))]
fn bc_all() {
    bc_all_(DeliveryMode::Persistent)
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
#[cfg_attr(kani, kani::stub(Serializer::to_bytes, byte_serializer::to_bytes))]
#[cfg_attr(kani, kani::stub(Serializer::from_bytes, byte_serializer::from_bytes))]
#[cfg_attr(kani, kani::stub(<std::hash::DefaultHasher as std::hash::Hasher>::write, hash::write))]
#[cfg_attr(kani, kani::stub(<std::hash::DefaultHasher as std::hash::Hasher>::finish, hash::finish))]
#[cfg_attr(kani, kani::stub(std::hash::RandomState::new, hash::random_state))]
fn bc_all_ephemeral() {
    bc_all_(DeliveryMode::Ephemeral)
}
fn bc_all_(mode: DeliveryMode) {
    let q = handle(SyndicationMode::Broadcast, mode);
    let mut a = consumer(&q, "a");
    let mut b = consumer(&q, "b");
    let x = [nd::any_u8(), nd::any_u8()];
    publish(&q, x[0]);
    publish(&q, x[1]);
    post!(poll(&mut a) == Item(x[0]) && poll(&mut b) == Item(x[0]), "every consumer gets the first message");
    post!(poll(&mut b) == Item(x[1]) && poll(&mut a) == Item(x[1]), "every consumer gets the second message");
    post!(poll(&mut a) == Wait && poll(&mut b) == Wait, "each message is delivered once to each consumer");
}
/// Consumers of one name share one subscription.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
#[cfg_attr(kani, kani::stub(Serializer::to_bytes, byte_serializer::to_bytes))]
#[cfg_attr(kani, kani::stub(Serializer::from_bytes, byte_serializer::from_bytes))]
#[cfg_attr(kani, kani::stub(<std::hash::DefaultHasher as std::hash::Hasher>::write, hash::write))]
#[cfg_attr(kani, kani::stub(<std::hash::DefaultHasher as std::hash::Hasher>::finish, hash::finish))]
#[cfg_attr(kani, kani::stub(std::hash::RandomState::new, hash::random_state))]
fn bc_shared() {
    bc_shared_(DeliveryMode::Persistent)
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
#[cfg_attr(kani, kani::stub(Serializer::to_bytes, byte_serializer::to_bytes))]
#[cfg_attr(kani, kani::stub(Serializer::from_bytes, byte_serializer::from_bytes))]
#[cfg_attr(kani, kani::stub(<std::hash::DefaultHasher as std::hash::Hasher>::write, hash::write))]
#[cfg_attr(kani, kani::stub(<std::hash::DefaultHasher as std::hash::Hasher>::finish, hash::finish))]
#[cfg_attr(kani, kani::stub(std::hash::RandomState::new, hash::random_state))]
fn bc_shared_ephemeral() {
    bc_shared_(DeliveryMode::Ephemeral)
}
fn bc_shared_(mode: DeliveryMode) {
    let q = handle(SyndicationMode::Broadcast, mode);
    let mut a = consumer(&q, "a");
    let x = [nd::any_u8(), nd::any_u8()];
    publish(&q, x[0]);
    let mut b = consumer(&q, "a");
    publish(&q, x[1]);
    let (f, s) = (nd::any_bool(), nd::any_bool());
    post!(poll(if f { &mut a } else { &mut b }) == Item(x[0]), "consumers of one name share the messages, in order");
    post!(poll(if s { &mut a } else { &mut b }) == Item(x[1]), "consumers of one name share the messages, in order");
    post!(poll(&mut a) == Wait && poll(&mut b) == Wait, "each message is delivered once to each name");
}
/// Messages published without consumer go to the first one declared.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
#[cfg_attr(kani, kani::stub(Serializer::to_bytes, byte_serializer::to_bytes))]
#[cfg_attr(kani, kani::stub(Serializer::from_bytes, byte_serializer::from_bytes))]
#[cfg_attr(kani, kani::stub(<std::hash::DefaultHasher as std::hash::Hasher>::write, hash::write))]
#[cfg_attr(kani, kani::stub(<std::hash::DefaultHasher as std::hash::Hasher>::finish, hash::finish))]
#[cfg_attr(kani, kani::stub(std::hash::RandomState::new, hash::random_state))]
fn bc_history() {
    bc_history_(DeliveryMode::Persistent)
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
#[cfg_attr(kani, kani::stub(Serializer::to_bytes, byte_serializer::to_bytes))]
#[cfg_attr(kani, kani::stub(Serializer::from_bytes, byte_serializer::from_bytes))]
#[cfg_attr(kani, kani::stub(<std::hash::DefaultHasher as std::hash::Hasher>::write, hash::write))]
#[cfg_attr(kani, kani::stub(<std::hash::DefaultHasher as std::hash::Hasher>::finish, hash::finish))]
#[cfg_attr(kani, kani::stub(std::hash::RandomState::new, hash::random_state))]
fn bc_history_ephemeral() {
    bc_history_(DeliveryMode::Ephemeral)
}
fn bc_history_(mode: DeliveryMode) {
    let q = handle(SyndicationMode::Broadcast, mode);
    let x = [nd::any_u8(), nd::any_u8(), nd::any_u8()];
    publish(&q, x[0]);
    publish(&q, x[1]);
    let mut a = consumer(&q, "a");
    let mut b = consumer(&q, "b");
    publish(&q, x[2]);
    if mode == DeliveryMode::Persistent {
        post!(poll(&mut a) == Item(x[0]), "the first consumer gets the messages published before it");
        post!(poll(&mut a) == Item(x[1]), "the first consumer gets the messages published before it, in order");
    }
    post!(poll(&mut a) == Item(x[2]), "the first consumer gets the later message next");
    post!(poll(&mut b) == Item(x[2]), "the second consumer gets the later message only");
    post!(poll(&mut a) == Wait && poll(&mut b) == Wait, "each message is delivered once");
}

/// One operation of this thread, interleaved at every shared access with what
/// other threads do.
#[cfg(kani)]
mod concurrent {
    use super::*;
    static mut Q: *const InMemoryQueueHandle = std::ptr::null();
    static mut C2: *mut C = std::ptr::null_mut();
    static mut GOT: [u8; 3] = [0; 3];
    static mut N: usize = 0;
    static mut BUSY: bool = false;
    static mut DECLARED: bool = false;
    static mut LEFT: usize = 0;
    /// Rely: another consumer of the queue is polled.
    fn other_polls(_: u8) {
        unsafe {
            if C2.is_null() || BUSY || LEFT == 0 || !nd::any_bool() {
                return;
            }
            BUSY = true;
            LEFT -= 1;
            match poll(&mut *C2) {
                Item(x) => {
                    GOT[N] = x;
                    N += 1;
                }
                Wait => {}
                End => panic!("[P] a consumer does not end"),
            }
            BUSY = false;
        }
    }
    /// publish: a message is available only when it is there.
    #[kani::proof]
    #[kani::stub(kenv::step, other_polls)]
    #[kani::unwind(5)]
    #[kani::stub(Serializer::to_bytes, byte_serializer::to_bytes)]
    #[kani::stub(Serializer::from_bytes, byte_serializer::from_bytes)]
    #[kani::stub(<std::hash::DefaultHasher as std::hash::Hasher>::write, hash::write)]
    #[kani::stub(<std::hash::DefaultHasher as std::hash::Hasher>::finish, hash::finish)]
    #[kani::stub(std::hash::RandomState::new, hash::random_state)]
    fn eo_publish() {
        let q = handle(SyndicationMode::ExactlyOnce, DeliveryMode::Persistent);
        let mut a = consumer(&q, "a");
        let mut b = consumer(&q, "b");
        let x = nd::any_u8();
        unsafe {
            LEFT = 2;
            C2 = &mut *b;
        }
        publish(&q, x);
        unsafe { C2 = std::ptr::null_mut() };
        let r = poll(&mut a);
        unsafe {
            cover!(LEFT < 2, "polled during publication");
            post!(N <= 1, "a message is delivered once");
            post!(N == 0 || GOT[0] == x, "a message is delivered with its content");
            post!(r == if N == 1 { Wait } else { Item(x) }, "a message is delivered to exactly one consumer");
        }
    }
    /// poll: of two consumers that go for the same message only one gets it.
    #[kani::proof]
    #[kani::stub(kenv::step, other_polls)]
    #[kani::unwind(5)]
    #[kani::stub(Serializer::to_bytes, byte_serializer::to_bytes)]
    #[kani::stub(Serializer::from_bytes, byte_serializer::from_bytes)]
    #[kani::stub(<std::hash::DefaultHasher as std::hash::Hasher>::write, hash::write)]
    #[kani::stub(<std::hash::DefaultHasher as std::hash::Hasher>::finish, hash::finish)]
    #[kani::stub(std::hash::RandomState::new, hash::random_state)]
    fn eo_poll() {
        let q = handle(SyndicationMode::ExactlyOnce, DeliveryMode::Persistent);
        let mut a = consumer(&q, "a");
        let mut b = consumer(&q, "b");
        let x = [nd::any_u8(), nd::any_u8()];
        let n = 1 + nd::below(2);
        publish(&q, x[0]);
        if n == 2 {
            publish(&q, x[1]);
        }
        unsafe {
            LEFT = 2;
            C2 = &mut *b;
        }
        let r = poll(&mut a);
        unsafe {
            C2 = std::ptr::null_mut();
            let k = N + (r != Wait) as usize;
            cover!(N == 1 && r != Wait, "both get one");
            post!(k <= n, "a message is delivered once");
            post!(r != Wait || N == n, "a consumer waits only if there is no message left");
            post!(N < 1 || GOT[0] == x[0] || r == Item(x[0]) && n == 2 && GOT[0] == x[1], "messages are delivered in order");
            post!(N < 2 || GOT[1] == x[1], "messages are delivered in order");
            post!(r == Wait || r == Item(x[0]) || N > 0 && r == Item(x[1]), "messages are delivered in order");
            post!(r == Wait || N == 0 || n == 2, "a message is delivered once");
        }
    }
    /// Rely: another thread declares a consumer (unless this one holds the lock).
    fn other_declares(_: u8) {
        unsafe {
            if Q.is_null() || BUSY || DECLARED || kenv::held() > 0 || !nd::any_bool() {
                return;
            }
            BUSY = true;
            DECLARED = true;
            let c = consumer(&*Q, "b");
            C2 = Box::leak(Box::new(ManuallyDrop::into_inner(c)));
            BUSY = false;
        }
    }
    /// Broadcast publication while a consumer is being declared: the message
    /// is neither lost nor delivered to it twice.
    #[kani::proof]
    #[kani::stub(kenv::step, other_declares)]
    #[kani::unwind(5)]
    #[kani::stub(Serializer::to_bytes, byte_serializer::to_bytes)]
    #[kani::stub(Serializer::from_bytes, byte_serializer::from_bytes)]
    #[kani::stub(<std::hash::DefaultHasher as std::hash::Hasher>::write, hash::write)]
    #[kani::stub(<std::hash::DefaultHasher as std::hash::Hasher>::finish, hash::finish)]
    #[kani::stub(std::hash::RandomState::new, hash::random_state)]
    fn bc_publish() {
        let q = handle(SyndicationMode::Broadcast, DeliveryMode::Persistent);
        let x = nd::any_u8();
        unsafe { Q = &*q };
        publish(&q, x);
        unsafe { Q = std::ptr::null() };
        unsafe {
            cover!(DECLARED, "declared during publication");
            if DECLARED {
                post!(poll(&mut *C2) == Item(x), "a message published while the first consumer is declared is not lost");
                post!(poll(&mut *C2) == Wait, "a message is delivered once to each consumer");
            } else {
                let mut c = consumer(&q, "c");
                post!(poll(&mut c) == Item(x), "the first consumer gets the messages published before it");
                post!(poll(&mut c) == Wait, "a message is delivered once to each consumer");
            }
        }
    }
}

#[cfg(not(kani))]
mod history {
    //! Histories on the real dependencies.
    use super::*;
    use crate::{choose, log, Flag};
    use std::collections::VecDeque;
    use std::sync::{atomic::Ordering::SeqCst, Arc};
    use std::task::Waker;
    struct K {
        c: C,
        name: usize,
        flag: Arc<Flag>,
        waiting: bool,
        /// broadcast: what it must get (shared by name), exactly-once: what it got
        got: Vec<u8>,
    }
    fn woken(k: &K) -> bool {
        k.waiting && k.flag.woken()
    }
    const NAMES: [&str; 3] = ["a", "b", "c"];
    fn declare(q: &InMemoryQueueHandle, name: usize) -> K {
        log(format!("declare {}", NAMES[name]));
        K { c: ManuallyDrop::into_inner(consumer(q, NAMES[name])), name, flag: Arc::default(), waiting: false, got: vec![] }
    }
    fn polled(k: &mut K) -> Got {
        k.flag.reset();
        let w = Waker::from(k.flag.clone());
        let r = match Pin::new(&mut k.c).poll_next(&mut Context::from_waker(&w)) {
            Poll::Pending => Wait,
            Poll::Ready(Some((x, _))) => Item(x),
            Poll::Ready(None) => End,
        };
        k.waiting = r == Wait;
        log(format!("poll {}: {r:?}", NAMES[k.name]));
        post!(r != End, "a consumer does not end");
        r
    }
    /// Exactly-once: publish, declare, poll, drop in any order, then drain.
    pub fn eo(steps: usize) {
        let q = handle(SyndicationMode::ExactlyOnce, any_mode());
        let mut ks: Vec<K> = vec![];
        let (mut sent, mut recv) = (0u8, 0u8);
        for _ in 0..steps {
            let mut acts: Vec<(u8, usize)> = vec![(0, 0)];
            if ks.len() < 3 {
                acts.push((1, 0));
            }
            for (i, k) in ks.iter().enumerate() {
                if !k.waiting || k.flag.woken() {
                    acts.push((2, i));
                }
                acts.push((3, i));
            }
            match acts[choose(acts.len())] {
                (0, _) => {
                    log(format!("publish {sent}"));
                    publish(&q, sent);
                    sent += 1;
                }
                (1, _) => {
                    let n = choose(2);
                    ks.push(declare(&q, n))
                }
                (2, i) => eo_poll(&mut ks, i, sent, &mut recv),
                (_, i) => {
                    log(format!("drop {i}"));
                    ks.remove(i);
                }
            }
        }
        if ks.is_empty() {
            ks.push(declare(&q, 0));
        }
        loop {
            let Some(i) = (0..ks.len()).find(|i| !ks[*i].waiting || ks[*i].flag.woken()) else { break };
            eo_poll(&mut ks, i, sent, &mut recv);
        }
        post!(recv == sent, "every message is delivered while there is a consumer");
    }
    fn eo_poll(ks: &mut [K], i: usize, sent: u8, recv: &mut u8) {
        let r = polled(&mut ks[i]);
        match r {
            Item(x) => {
                post!(x == *recv, "messages are delivered in order, each once, with their content");
                *recv += 1;
                post!(*recv <= sent, "only published messages are delivered");
            }
            _ => {
                let others = (0..ks.len()).filter(|j| *j != i && woken(&ks[*j])).count();
                post!((sent - *recv) as usize <= others, "a consumer waits only if no message is available to it");
            }
        }
    }
    /// Broadcast, against the obvious model.
    pub fn bc(steps: usize) {
        let mode = any_mode();
        let q = handle(SyndicationMode::Broadcast, mode);
        let mut ks: Vec<K> = vec![];
        let mut want: [Option<VecDeque<u8>>; 3] = Default::default();
        let mut hist: VecDeque<u8> = VecDeque::new();
        let mut sent = 0u8;
        let step = |ks: &mut Vec<K>, want: &mut [Option<VecDeque<u8>>; 3], i: usize| {
            let r = polled(&mut ks[i]);
            let w = want[ks[i].name].as_mut().unwrap();
            match r {
                Item(x) => post!(w.pop_front() == Some(x), "a consumer gets the messages of its name, in order, each once"),
                _ => {
                    let n = ks[i].name;
                    let others = (0..ks.len()).filter(|j| *j != i && ks[*j].name == n && woken(&ks[*j])).count();
                    post!(w.len() <= others, "a consumer waits only if no message is available to it");
                }
            }
        };
        for _ in 0..steps {
            let mut acts: Vec<(u8, usize)> = vec![(0, 0)];
            if ks.len() < 4 {
                acts.push((1, 0));
            }
            for (i, k) in ks.iter().enumerate() {
                if !k.waiting || k.flag.woken() {
                    acts.push((2, i));
                }
            }
            match acts[choose(acts.len())] {
                (0, _) => {
                    log(format!("publish {sent}"));
                    publish(&q, sent);
                    let mut any = false;
                    for w in want.iter_mut().flatten() {
                        w.push_back(sent);
                        any = true;
                    }
                    if !any && mode == DeliveryMode::Persistent {
                        hist.push_back(sent);
                    }
                    sent += 1;
                }
                (1, _) => {
                    let n = choose(3);
                    ks.push(declare(&q, n));
                    if want[n].is_none() {
                        want[n] = Some(std::mem::take(&mut hist));
                    }
                }
                (_, i) => step(&mut ks, &mut want, i),
            }
        }
        loop {
            let Some(i) = (0..ks.len()).find(|i| !ks[*i].waiting || ks[*i].flag.woken()) else { break };
            step(&mut ks, &mut want, i);
        }
        post!(want.iter().flatten().all(|w| w.is_empty()), "every message is delivered to every consumer");
    }
    /// Real threads: publishers against consumers.
    pub fn threads_eo() {
        let q = handle(SyndicationMode::ExactlyOnce, DeliveryMode::Persistent);
        let n = 60u8;
        let got = std::thread::scope(|s| {
            let hs: Vec<_> = (0..2)
                .map(|i| {
                    let q = &q;
                    s.spawn(move || {
                        let mut k = K {
                            c: ManuallyDrop::into_inner(consumer(q, NAMES[i])),
                            name: i,
                            flag: Arc::default(),
                            waiting: false,
                            got: vec![],
                        };
                        let t = std::time::Instant::now();
                        while t.elapsed().as_millis() < 2000 {
                            k.flag.reset();
                            let w = Waker::from(k.flag.clone());
                            match Pin::new(&mut k.c).poll_next(&mut Context::from_waker(&w)) {
                                Poll::Pending => {
                                    while !k.flag.woken() && t.elapsed().as_millis() < 2000 {
                                        std::hint::spin_loop()
                                    }
                                }
                                Poll::Ready(Some((255, _))) => return k.got,
                                Poll::Ready(Some((x, _))) => k.got.push(x),
                                Poll::Ready(None) => panic!("[P] a consumer does not end"),
                            }
                        }
                        panic!("[P] a waiting consumer is woken when a message is published")
                    })
                })
                .collect();
            let ps: Vec<_> = (0..2u8)
                .map(|p| {
                    let q = &q;
                    s.spawn(move || (0..n).for_each(|i| publish(q, 2 * i + p)))
                })
                .collect();
            ps.into_iter().for_each(|p| p.join().unwrap());
            publish(&q, 255);
            publish(&q, 255);
            hs.into_iter().map(|h| h.join()).collect::<Vec<_>>()
        });
        let mut all = vec![];
        for g in got {
            let g = g.unwrap_or_else(|p| std::panic::resume_unwind(p));
            for p in 0..2 {
                let mine: Vec<u8> = g.iter().copied().filter(|x| x % 2 == p).collect();
                post!(mine.windows(2).all(|w| w[0] < w[1]), "a consumer gets the messages of a publisher in order");
            }
            all.extend(g);
        }
        all.sort();
        post!(all == (0..2 * n).collect::<Vec<_>>(), "every message is delivered to exactly one consumer");
    }
    /// Real threads: a publisher against a declaration.
    pub fn threads_bc() {
        let q = handle(SyndicationMode::Broadcast, DeliveryMode::Persistent);
        let n = 40u8;
        let mut k = std::thread::scope(|s| {
            let h = s.spawn(|| {
                for _ in 0..choose_spin() {
                    std::hint::spin_loop()
                }
                consumer(&q, "a")
            });
            (0..n).for_each(|i| publish(&q, i));
            h.join().unwrap()
        });
        let mut got = vec![];
        while let Item(x) = poll(&mut k) {
            got.push(x);
        }
        let l = got.len();
        got.sort();
        got.dedup();
        post!(got.len() == l, "a message is delivered once to each consumer");
        post!(got == (0..n).collect::<Vec<_>>(), "a message published while the first consumer is declared is not lost");
    }
    fn choose_spin() -> usize {
        use std::sync::atomic::AtomicUsize;
        static N: AtomicUsize = AtomicUsize::new(1);
        N.fetch_add(97, SeqCst) % 6000
    }
}
#[cfg(not(kani))]
fn eo_history() {
    history::eo(6)
}
#[cfg(not(kani))]
fn eo_rand_history() {
    history::eo(30)
}
#[cfg(not(kani))]
fn bc_histories() {
    history::bc(6)
}
#[cfg(not(kani))]
fn bc_rand_history() {
    history::bc(30)
}
#[cfg(not(kani))]
fn eo_rand_threads() {
    history::threads_eo()
}
#[cfg(not(kani))]
fn bc_rand_threads() {
    history::threads_bc()
}
#[cfg(not(kani))]
crate::harnesses![
    eo_once, eo_wait, eo_history, eo_rand_history, eo_rand_threads, bc_all, bc_all_ephemeral, bc_shared, bc_shared_ephemeral, bc_history, bc_history_ephemeral, bc_histories,
    bc_rand_history, bc_rand_threads
];
