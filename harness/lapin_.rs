//! Contracts of the AMQP backend against any broker: what it is asked for, and
//! what consumers see of what it answers.
use crate::common::*;
use crate::nd;
use futures::Stream;
use lapin::{record, script, Answer, ANSWERS, RECORD};
use paladin::acker::Acker;
use paladin::queue::{amqp::*, *};
use paladin::serializer::Serializer;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

/// Contract of the serializer (C20): what is written is read back; one byte
/// string is not the serialization of anything.
mod ser {
    use super::Serializer;
    pub const BAD: u8 = 255;
    pub fn to_bytes<T: serde::Serialize>(_: &Serializer, v: &T) -> anyhow::Result<bytes::Bytes> {
        assert!(std::mem::size_of::<T>() == 1);
        let x = unsafe { *(v as *const T as *const u8) };
        if x == BAD {
            return Err(crate::common::err());
        }
        Ok(bytes::Bytes::from_static(Box::leak(Box::new([x]))))
    }
    pub fn from_bytes<T: for<'a> serde::Deserialize<'a>>(_: &Serializer, b: &[u8]) -> anyhow::Result<T> {
        assert!(std::mem::size_of::<T>() == 1 && b.len() == 1);
        if b[0] == BAD {
            return Err(crate::common::err());
        }
        let x = b[0];
        Ok(unsafe { std::mem::transmute_copy(&x) })
    }
}
/// The broker answers at once.
fn now<F: Future>(f: F) -> F::Output {
    let mut f = ManuallyDrop::new(f);
    match nd::with_cx(|cx| unsafe { Pin::new_unchecked(&mut *f) }.poll(cx)) {
        Poll::Ready(r) => r,
        Poll::Pending => panic!("[P] the backend waits only for the broker"),
    }
}
fn options() -> QueueOptions {
    QueueOptions {
        syndication_mode: if nd::any_bool() { SyndicationMode::Broadcast } else { SyndicationMode::ExactlyOnce },
        delivery_mode: if nd::any_bool() { DeliveryMode::Persistent } else { DeliveryMode::Ephemeral },
        durability: if nd::any_bool() { QueueDurability::Durable } else { QueueDurability::NonDurable },
    }
}
fn bcast(o: &QueueOptions) -> bool {
    o.syndication_mode == SyndicationMode::Broadcast
}
fn any_name() -> [u8; 2] {
    [b'a' + nd::below(3) as u8, b'x']
}
fn connection() -> ManuallyDrop<AMQPConnection> {
    *record() = RECORD;
    let o = AMQPConnectionOptions { uri: "u", qos: None, serializer: Serializer::default() };
    match now(AMQPConnection::new(o)) {
        Ok(c) => ManuallyDrop::new(c),
        Err(e) => {
            forget(e);
            panic!("[P] connecting succeeds if the broker accepts it")
        }
    }
}
fn queue(name: &str, o: QueueOptions) -> ManuallyDrop<AMQPQueueHandle> {
    ManuallyDrop::new(AMQPQueueHandle::verif_new(lapin::Channel, name.to_string(), Serializer::default(), o))
}
/// Some call fails, or none.
fn any_failure() {
    *record() = RECORD;
    record().fail = nd::below(5);
}

/// new: one connection, one channel, the prefetch count given or 1.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(4))]
fn connect() {
    any_failure();
    let qos = if nd::any_bool() { Some(nd::any_u32() as u16) } else { None };
    let o = AMQPConnectionOptions { uri: "u", qos, serializer: Serializer::default() };
    let r = ManuallyDrop::new(now(AMQPConnection::new(o)));
    let b = record();
    post!(r.is_ok() == (b.failed == 0), "an error of the broker is reported, and only then");
    post!(b.connects <= 1 && b.channels <= 1, "there is one connection and one channel");
    if r.is_ok() {
        let want = match qos {
            Some(q) => q,
            None => 1,
        };
        post!(b.qos == Some((want, false)), "the prefetch count of each consumer is the one given, or 1");
    }
    post!(b.declares + b.exchanges + b.binds + b.publishes + b.consumes == 0, "nothing else is asked for");
    cover!(r.is_ok(), "connected");
    cover!(r.is_err(), "refused");
}
/// declare_queue, for all options and failures.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(4))]
fn declare() {
    let c = connection();
    let o = options();
    let n = any_name();
    let s = unsafe { std::str::from_utf8_unchecked(&n) };
    any_failure();
    let r = ManuallyDrop::new(now(c.declare_queue(s, o)));
    let b = record();
    let n = lapin::name(s);
    post!(r.is_ok() == (b.failed == 0), "an error of the broker is reported, and only then");
    if r.is_ok() {
        let durable = o.durability == QueueDurability::Durable;
        post!(b.declares == 1 && b.declare.0 == n, "a queue of that name is declared, and no other");
        let q = b.declare.1;
        post!(q.durable == durable, "the queue is durable iff the options say so");
        post!(!q.exclusive && !q.auto_delete, "the queue is not exclusive to a connection, nor deleted with its last consumer");
        post!(!q.passive && !q.nowait, "the broker creates the queue and says so");
        post!(b.declare.2 != durable, "a queue expires iff it is not durable");
        if bcast(&o) {
            post!(b.exchanges == 1 && b.exchange.0 == n, "a broadcast queue has an exchange of that name");
            post!(b.exchange.1, "it is a fanout exchange");
            let x = b.exchange.2;
            post!(x.durable == durable, "the exchange is durable iff the options say so");
            post!(!x.passive && !x.internal && !x.nowait, "the broker creates the exchange and says so");
            post!(b.binds == 1 && b.bind == (n, n), "the queue is bound to the exchange");
            post!(b.bind_at > b.declare_at && b.bind_at > b.exchange_at, "it is bound when both exist");
        } else {
            post!(b.exchanges + b.binds == 0, "an exactly-once queue has no exchange");
        }
    }
    post!(b.deletes + b.exchange_deletes + b.publishes + b.consumes == 0, "nothing else is asked for");
    cover!(r.is_ok() && bcast(&o), "broadcast");
    cover!(r.is_ok() && !bcast(&o), "exactly once");
    cover!(r.is_err(), "refused");
}
/// publish, for all options, payloads and failures.
fn published(o: QueueOptions) {
    let n = any_name();
    let s = unsafe { std::str::from_utf8_unchecked(&n) };
    let q = queue(s, o);
    let p = ManuallyDrop::new(q.publisher::<u8>());
    any_failure();
    let x = nd::any_u8();
    let r = ManuallyDrop::new(now(p.publish(&x)));
    let b = record();
    let n = lapin::name(s);
    post!(r.is_ok() == (b.failed == 0 && x != ser::BAD), "an error of the broker or the serializer is reported, and only then");
    if x == ser::BAD {
        post!(b.publishes == 0, "nothing is published if the payload cannot be serialized");
    } else {
        post!(b.publishes == 1, "the message is published once");
        let (e, k, len, y, mode) = b.publish;
        post!(len == 1 && y == x, "the message is the serialized payload");
        if bcast(&o) {
            post!(e == n, "a message of a broadcast queue goes to its exchange");
        } else {
            post!(e == lapin::name("") && k == n, "a message of an exactly-once queue goes to that queue through the default exchange");
        }
        post!((mode == Some(2)) == (o.delivery_mode == DeliveryMode::Persistent), "a message is persistent iff the options say so");
    }
    if r.is_ok() {
        post!(b.confirms == 1, "the broker has taken the message");
    }
    post!(b.declares + b.exchanges + b.binds + b.deletes + b.exchange_deletes + b.consumes == 0, "nothing else is asked for");
    cover!(r.is_ok(), "published");
    cover!(r.is_err() && b.failed == 1, "refused");
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(4))]
#[cfg_attr(kani, kani::stub(paladin::serializer::Serializer::to_bytes, ser::to_bytes))]
#[cfg_attr(kani, kani::stub(paladin::serializer::Serializer::from_bytes, ser::from_bytes))]
fn publish_single() {
    published(QueueOptions { syndication_mode: SyndicationMode::ExactlyOnce, ..options() })
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(4))]
#[cfg_attr(kani, kani::stub(paladin::serializer::Serializer::to_bytes, ser::to_bytes))]
#[cfg_attr(kani, kani::stub(paladin::serializer::Serializer::from_bytes, ser::from_bytes))]
fn publish_broadcast() {
    published(QueueOptions { syndication_mode: SyndicationMode::Broadcast, ..options() })
}
/// close closes the channel and the connection.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(4))]
fn close() {
    let c = connection();
    any_failure();
    let r = ManuallyDrop::new(now(c.close()));
    post!(record().closes.1 == 1, "the connection is closed");
    post!(r.is_ok() || record().failed > 0, "closing succeeds if the broker does it");
}
/// declare_consumer: a consumer of that name and queue, that acknowledges by itself.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(4))]
fn consume() {
    let o = options();
    let n = any_name();
    let s = unsafe { std::str::from_utf8_unchecked(&n) };
    let q = queue(s, o);
    any_failure();
    let r = ManuallyDrop::new(now(q.declare_consumer::<u8>("kk")));
    let b = record();
    post!(r.is_ok() == (b.failed == 0), "an error of the broker is reported, and only then");
    if r.is_ok() {
        post!(b.consumes == 1 && b.consume.0 == lapin::name(s), "the queue of that name is consumed");
        post!(b.consume.1 == lapin::name("kk"), "the consumer has the name given");
        let k = b.consume.2;
        post!(!k.no_ack, "messages are acknowledged by the consumer");
        post!(!k.exclusive && !k.nowait, "other consumers are not excluded");
    }
    post!(b.publishes + b.deletes + b.exchange_deletes == 0, "nothing else is asked for");
    cover!(r.is_ok(), "declared");
    cover!(r.is_err(), "refused");
}
fn any_answer() -> Answer {
    match nd::below(4) {
        0 => Answer::Message(nd::any_u8()),
        1 => Answer::Error,
        2 => Answer::End,
        _ => Answer::Nothing,
    }
}
/// poll_next: what cannot be received or decoded is skipped (and settled, not
/// to be delivered again), the first message that can be is yielded, and
/// waiting and the end are those of the broker. The acker settles that message.
fn polled(settle: bool) {
    let mut k = ManuallyDrop::new(AMQPConsumer::<u8>::verif_new(lapin::Consumer, Serializer::default()));
    let s = script();
    let mut i = 0;
    while i < ANSWERS {
        s.answers[i] = any_answer();
        i += 1;
    }
    // the answers to be skipped
    let skip = |a| a == Answer::Error || a == Answer::Message(ser::BAD);
    let mut n = 0;
    while n < ANSWERS && skip(s.answers[n]) {
        n += 1;
    }
    let before = kenv::registered();
    let r = ManuallyDrop::new(nd::with_cx(|cx| unsafe { Pin::new_unchecked(&mut *k) }.poll_next(cx)));
    let first = if n < ANSWERS { s.answers[n] } else { Answer::Nothing };
    match (&*r, first) {
        (Poll::Ready(Some((x, a))), Answer::Message(y)) => {
            post!(*x == y, "the first message that can be decoded is yielded, unchanged");
            post!(s.at == n + 1, "no message is taken before it is asked for");
            post!(s.acks[n] == 0 && s.nacks[n] == 0, "it is not acknowledged by itself");
            if settle {
                any_failure();
                let nack = nd::any_bool();
                let r = ManuallyDrop::new(if nack { now(a.nack()) } else { now(a.ack()) });
                post!(s.acks[n] == !nack as usize && s.nacks[n] == nack as usize, "the acker acknowledges the message; ack is ack and nack is nack");
                post!(r.is_ok() == (record().failed == 0), "an error of the broker is reported, and only then");
            }
            cover!(n == 0, "the first answer");
            cover!(n == 2, "the third answer");
        }
        (Poll::Ready(None), Answer::End) => cover!(true, "the end"),
        (Poll::Pending, Answer::Nothing) => {
            post!(kenv::registered() > before, "a waiting consumer is woken by the broker");
            cover!(true, "waiting");
        }
        _ => post!(false, "a consumer yields, waits or ends as the broker does"),
    }
    post!(s.multiple == 0, "no other message is acknowledged");
    let mut i = 0;
    while i < ANSWERS {
        let bad = i < n && matches!(s.answers[i], Answer::Message(_));
        if bad {
            post!(s.acks[i] + s.nacks[i] == 1, "a message that cannot be decoded is settled, once");
        } else if i != n {
            post!(s.acks[i] + s.nacks[i] == 0, "no other message is acknowledged");
        }
        i += 1;
    }
    if !settle {
        post!(s.requeued == 0, "a message that cannot be decoded is not delivered again");
    }
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
#[cfg_attr(kani, kani::stub(paladin::serializer::Serializer::to_bytes, ser::to_bytes))]
#[cfg_attr(kani, kani::stub(paladin::serializer::Serializer::from_bytes, ser::from_bytes))]
fn poll_next() {
    polled(false)
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
#[cfg_attr(kani, kani::stub(paladin::serializer::Serializer::to_bytes, ser::to_bytes))]
#[cfg_attr(kani, kani::stub(paladin::serializer::Serializer::from_bytes, ser::from_bytes))]
fn settle() {
    polled(true)
}
crate::harnesses![connect, declare, publish_single, publish_broadcast, close, consume, poll_next, settle];
