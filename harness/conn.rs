//! Contract of InMemoryConnection: names denote queues.
use crate::common::*;
use crate::nd;
use futures::Stream;
use paladin::queue::in_memory::*;
use paladin::queue::*;
use paladin::serializer::Serializer;
use std::pin::Pin;
use std::task::{Context, Poll};

fn now<F: std::future::Future>(f: F) -> F::Output {
    let mut f = ManuallyDrop::new(f);
    match nd::with_cx(|cx| unsafe { Pin::new_unchecked(&mut *f) }.poll(cx)) {
        Poll::Ready(r) => r,
        Poll::Pending => panic!("[P] operations of the connection do not wait"),
    }
}
fn ok<T>(r: anyhow::Result<T>) -> ManuallyDrop<T> {
    match r {
        Ok(x) => ManuallyDrop::new(x),
        Err(e) => {
            forget(e);
            panic!("[P] operations of the connection succeed")
        }
    }
}
const NAMES: [&str; 3] = ["a", "b", ""];
fn eo() -> QueueOptions {
    QueueOptions { delivery_mode: DeliveryMode::Persistent, syndication_mode: SyndicationMode::ExactlyOnce, durability: QueueDurability::NonDurable }
}
fn publish(q: &InMemoryQueueHandle, x: u8) {
    let p = ManuallyDrop::new(q.publisher::<u8>());
    ok(now(p.publish(&x)));
}
fn take(q: &InMemoryQueueHandle) -> Option<u8> {
    let mut c = ok(now(q.declare_consumer::<u8>("c")));
    let r = match nd::with_cx(|cx| Pin::new(&mut *c).poll_next(cx)) {
        Poll::Ready(Some((x, a))) => {
            forget(a);
            Some(x)
        }
        Poll::Ready(None) => panic!("[P] a consumer does not end"),
        Poll::Pending => None,
    };
    // a waiting consumer would be handed the next message
    #[cfg(not(kani))]
    drop(ManuallyDrop::into_inner(c));
    r
}
/// A name in use denotes the same queue; another name another one.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
#[cfg_attr(kani, kani::stub(Serializer::to_bytes, byte_serializer::to_bytes))]
#[cfg_attr(kani, kani::stub(Serializer::from_bytes, byte_serializer::from_bytes))]
fn same() {
    let c = ManuallyDrop::new(InMemoryConnection::new(Serializer::Postcard));
    let c2 = ManuallyDrop::new((*c).clone());
    let x = nd::any_u8();
    let a = ok(now(c.declare_queue("a", eo())));
    publish(&a, x);
    let n = if nd::any_bool() { "a" } else { "b" };
    let q = ok(now(c2.declare_queue(n, eo())));
    post!(take(&q) == if n == "a" { Some(x) } else { None }, "a name in use denotes the existing queue, a new one an empty queue");
}
/// Deleting frees the name and no other.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
#[cfg_attr(kani, kani::stub(Serializer::to_bytes, byte_serializer::to_bytes))]
#[cfg_attr(kani, kani::stub(Serializer::from_bytes, byte_serializer::from_bytes))]
fn delete() {
    let c = ManuallyDrop::new(InMemoryConnection::new(Serializer::Postcard));
    let x = nd::any_u8();
    let a = ok(now(c.declare_queue("a", eo())));
    publish(&a, x);
    let n = if nd::any_bool() { "a" } else { "b" };
    ok(now(c.delete_queue(n)));
    let q = ok(now(c.declare_queue("a", eo())));
    post!(take(&q) == if n == "a" { None } else { Some(x) }, "deleting a queue removes exactly that queue");
    post!(n == "b" || take(&a) == Some(x), "a handle of a deleted queue keeps working");
}
#[cfg(not(kani))]
mod history {
    use super::*;
    use crate::{choose, log};
    use std::collections::VecDeque;
    const O: [(SyndicationMode, DeliveryMode); 3] = [
        (SyndicationMode::ExactlyOnce, DeliveryMode::Persistent),
        (SyndicationMode::Broadcast, DeliveryMode::Persistent),
        (SyndicationMode::Broadcast, DeliveryMode::Ephemeral),
    ];
    /// A queue, in the model: its options and the messages a consumer "c" gets.
    struct Q {
        o: usize,
        sub: bool,
        msgs: VecDeque<u8>,
    }
    pub fn run(steps: usize, names_of: &[&str]) {
        let c0 = InMemoryConnection::new(Serializer::Postcard);
        let conns = [c0.clone(), c0];
        let mut qs: Vec<Q> = vec![];
        let mut names: Vec<Option<usize>> = vec![None; names_of.len()];
        let mut hs: Vec<(InMemoryQueueHandle, usize)> = vec![];
        let mut sent = 0u8;
        for _ in 0..steps {
            let c = &conns[choose(2)];
            let n = if hs.is_empty() { 2 } else { 4 };
            match choose(n) {
                0 => {
                    let (n, o) = (choose(names_of.len()), choose(3));
                    log(format!("declare {:?} {:?}", names_of[n], O[o]));
                    let q = ok(now(c.declare_queue(
                        names_of[n],
                        QueueOptions { syndication_mode: O[o].0, delivery_mode: O[o].1, durability: QueueDurability::NonDurable },
                    )));
                    let i = *names[n].get_or_insert_with(|| {
                        qs.push(Q { o, sub: false, msgs: Default::default() });
                        qs.len() - 1
                    });
                    hs.push((ManuallyDrop::into_inner(q), i));
                }
                1 => {
                    let n = choose(names_of.len());
                    log(format!("delete {:?}", names_of[n]));
                    ok(now(c.delete_queue(names_of[n])));
                    names[n] = None;
                }
                2 => {
                    let (h, i) = &hs[choose(hs.len())];
                    log(format!("publish {sent} on queue {i}"));
                    publish(h, sent);
                    let q = &mut qs[*i];
                    if q.sub || O[q.o].0 == SyndicationMode::ExactlyOnce || O[q.o].1 == DeliveryMode::Persistent {
                        q.msgs.push_back(sent);
                    }
                    sent += 1;
                }
                _ => {
                    let (h, i) = &hs[choose(hs.len())];
                    let q = &mut qs[*i];
                    q.sub = true;
                    let x = take(h);
                    log(format!("take from queue {i}: {x:?}"));
                    post!(x == q.msgs.pop_front(), "a handle denotes the queue it was declared as, with its options");
                }
            }
        }
        for (h, i) in &hs {
            let q = &mut qs[*i];
            q.sub = true;
            loop {
                let x = take(h);
                post!(x == q.msgs.pop_front(), "a handle denotes the queue it was declared as, with its options");
                if x.is_none() {
                    break;
                }
            }
        }
        post!(now(conns[0].close()).is_ok(), "closing succeeds");
    }
}
#[cfg(not(kani))]
fn histories() {
    history::run(3, &NAMES)
}
#[cfg(not(kani))]
fn rand_histories() {
    history::run(20, &["a", "b", "", "A", " a", "ab", "a.b", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"])
}
#[cfg(not(kani))]
crate::harnesses![same, delete, histories, rand_histories];
