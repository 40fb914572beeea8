//! The AMQP backend against a broker that speaks the protocol (bounded): what
//! the broker is asked for, and what consumers see of what it answers.
use crate::broker::*;
use crate::common::*;
use crate::{choose, log, nd, post};
use futures::{FutureExt, StreamExt};
use paladin::acker::Acker;
use paladin::queue::{amqp::*, *};
use paladin::serializer::Serializer;
use std::time::Duration;

pub fn broker() -> &'static Broker {
    static B: std::sync::OnceLock<Broker> = std::sync::OnceLock::new();
    B.get_or_init(Broker::start)
}
pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}
/// What must happen does so within this time.
const T: Duration = Duration::from_secs(15);
async fn soon<F: std::future::Future>(f: F, what: &str) -> F::Output {
    match tokio::time::timeout(T, f).await {
        Ok(x) => x,
        Err(_) => panic!("[P] {what}"),
    }
}
/// Wait until the broker has seen it.
pub async fn seen(f: impl Fn(&[Ev]) -> bool, what: &str) {
    let t = tokio::time::Instant::now();
    while !f(&broker().log()) {
        if t.elapsed() > T {
            panic!("[P] {what}: {:?}", broker().log());
        }
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
}
fn options() -> QueueOptions {
    let o = QueueOptions {
        syndication_mode: if nd::any_bool() { SyndicationMode::Broadcast } else { SyndicationMode::ExactlyOnce },
        delivery_mode: if nd::any_bool() { DeliveryMode::Persistent } else { DeliveryMode::Ephemeral },
        durability: if nd::any_bool() { QueueDurability::Durable } else { QueueDurability::NonDurable },
    };
    log(format!("{o:?}"));
    o
}
fn any_serializer() -> Serializer {
    if nd::any_bool() {
        Serializer::Cbor
    } else {
        Serializer::Postcard
    }
}
async fn connect(serializer: Serializer, qos: Option<u16>) -> AMQPConnection {
    broker().clear();
    let uri = broker().uri();
    AMQPConnection::new(AMQPConnectionOptions { uri: &uri, qos, serializer }).await.expect("connect")
}
fn declared(l: &[Ev], name: &str, o: &QueueOptions) {
    let durable = matches!(o.durability, QueueDurability::Durable);
    let bcast = matches!(o.syndication_mode, SyndicationMode::Broadcast);
    let d = l.iter().find_map(|e| match e {
        Ev::Declare { queue, durable, exclusive, auto_delete, expires } if queue == name => Some((*durable, *exclusive, *auto_delete, *expires)),
        _ => None,
    });
    post!(d.is_some(), "a queue of that name is declared");
    let (du, ex, au, exp) = d.unwrap();
    post!(du == durable, "the queue is durable iff the options say so");
    post!(!ex && !au, "the queue is not exclusive to a connection, nor deleted with its last consumer");
    post!(exp.is_some() != durable, "a queue expires iff it is not durable");
    let x = l.iter().find_map(|e| match e {
        Ev::Exchange { name: n, kind, durable, .. } if n == name => Some((kind.clone(), *durable)),
        _ => None,
    });
    let b = l.contains(&Ev::Bind { queue: name.into(), exchange: name.into() });
    if bcast {
        post!(x.is_some(), "a broadcast queue has an exchange of that name");
        let (k, d) = x.unwrap();
        post!(k == "fanout", "it is a fanout exchange");
        post!(d == durable, "the exchange is durable iff the options say so");
        post!(b, "the queue is bound to the exchange");
    } else {
        post!(x.is_none() && !l.iter().any(|e| matches!(e, Ev::Bind { .. })), "an exactly-once queue has no exchange");
    }
    post!(!l.iter().any(|e| matches!(e, Ev::Declare { queue, .. } if queue != name)), "no other queue is declared");
}
const NAMES: [&str; 3] = ["q", "a longer name", "x.y"];

/// Declaring, publishing and consuming; messages that cannot be decoded in
/// between; acknowledging or not.
fn messages() {
    run_messages(2, 1)
}
fn rand_messages() {
    run_messages(8, 3)
}
fn run_messages(max: usize, bad_max: usize) {
    let o = options();
    let s = any_serializer();
    let name = NAMES[choose(NAMES.len())];
    let qos = [None, Some(1), Some(3)][choose(3)];
    rt().block_on(async {
        let c = connect(s, qos).await;
        post!(broker().log() == [Ev::Qos(qos.unwrap_or(1))], "the prefetch count is the one given, or 1");
        broker().lock().log.clear();
        let q = soon(c.declare_queue(name, o), "declaring ends").await;
        post!(q.is_ok(), "declaring succeeds if the broker does it");
        let q = q.unwrap();
        declared(&broker().log(), name, &o);
        broker().lock().log.clear();

        let p = q.publisher::<(u32, String)>();
        let early = nd::any_bool(); // the consumer comes before the messages
        let tag = "some consumer";
        let mut k = None;
        if early {
            k = Some(soon(q.declare_consumer::<(u32, String)>(tag), "declaring a consumer ends").await.expect("declare"));
        }
        let n = choose(max + 1);
        let mut want = vec![];
        let mut bad = 0;
        for i in 0..n {
            let v = (i as u32, "x".repeat([0, 1, 300_000][choose(3)] * (i % 2)));
            while bad < bad_max && nd::any_bool() {
                log("a message that cannot be decoded");
                bad += 1;
                broker().inject(name, &[0xff; 3]);
            }
            log(format!("publish {i}"));
            post!(soon(p.publish(&v), "publishing ends").await.is_ok(), "publishing succeeds if the broker accepts it");
            let body = s.to_bytes(&v).unwrap().to_vec();
            seen(|l| l.iter().filter(|e| matches!(e, Ev::Publish { .. })).count() == i + 1, "a message is published").await;
            let l = broker().log();
            let e = l.iter().filter(|e| matches!(e, Ev::Publish { .. })).last().unwrap();
            if let Ev::Publish { exchange, key, mode, body: b } = e {
                match o.syndication_mode {
                    SyndicationMode::ExactlyOnce => post!(exchange.is_empty() && key == name, "a message of an exactly-once queue goes to that queue through the default exchange"),
                    SyndicationMode::Broadcast => post!(exchange == name, "a message of a broadcast queue goes to its exchange"),
                }
                post!(
                    (*mode == Some(2)) == matches!(o.delivery_mode, DeliveryMode::Persistent),
                    "a message is persistent iff the options say so"
                );
                post!(*b == body, "the message is the serialized payload");
            }
            want.push((v, body));
        }
        if bad < bad_max && nd::any_bool() {
            bad += 1;
            broker().inject(name, &[0xff; 3]);
        }
        let mut k = match k {
            Some(k) => k,
            None => soon(q.declare_consumer::<(u32, String)>(tag), "declaring a consumer ends").await.expect("declare"),
        };
        let l = broker().log();
        let cs: Vec<_> = l.iter().filter(|e| matches!(e, Ev::Consume { .. })).collect();
        post!(
            cs == [&Ev::Consume { queue: name.into(), tag: tag.into(), no_ack: false, exclusive: false }],
            "a consumer of that name consumes the queue and acknowledges by itself"
        );
        // At most as many messages as the prefetch count are held unacknowledged.
        let mut held: Vec<(&Vec<u8>, AMQPAcker)> = vec![];
        let mut todo = want.iter();
        loop {
            let full = held.len() == qos.unwrap_or(1) as usize;
            let next = if full || !held.is_empty() && nd::any_bool() { None } else { todo.next() };
            if let Some((v, body)) = next {
                let r = soon(k.next(), "every decodable message is yielded").await;
                post!(matches!(&r, Some((x, _)) if x == v), "messages are yielded in order, unchanged");
                held.push((body, r.unwrap().1));
                continue;
            }
            if held.is_empty() {
                break;
            }
            let (body, a) = held.remove(choose(held.len()));
            let before = broker().log().len();
            let nack = nd::any_bool();
            log(if nack { "nack" } else { "ack" });
            let r = soon(async { if nack { a.nack().await } else { a.ack().await } }, "acknowledging ends").await;
            post!(r.is_ok(), "acknowledging succeeds");
            let mine = |e: &&Ev| match e {
                Ev::Ack(b) => b == body,
                Ev::Nack { body: b, .. } => b == body,
                _ => false,
            };
            seen(|l| l.iter().any(|e| mine(&e)), "the message is acknowledged").await;
            let l = broker().log();
            let es: Vec<_> = l.iter().filter(mine).collect();
            post!(es.len() == 1, "the message is acknowledged once");
            post!(matches!(es[0], Ev::Nack { .. }) == nack, "ack is ack and nack is nack");
            post!(
                l[before.min(l.len())..].iter().all(|e| mine(&e) || matches!(e, Ev::Nack { body, .. } | Ev::Ack(body) if *body == [0xff; 3])),
                "no other message is acknowledged"
            );
        }
        tokio::time::sleep(Duration::from_millis(2)).await;
        post!(k.next().now_or_never().is_none(), "nothing else is yielded");
        tokio::time::sleep(Duration::from_millis(2)).await;
        let skipped = broker().log().iter().filter(|e| matches!(e, Ev::Nack { body, .. } | Ev::Ack(body) if *body == [0xff; 3])).count();
        post!(skipped <= bad, "a message that cannot be decoded is skipped once");
        post!(!broker().log().iter().any(|e| matches!(e, Ev::Bad(_))), "the protocol is followed");
        let r = soon(c.close(), "closing ends").await;
        post!(r.is_ok(), "closing succeeds");
    });
}
/// The broker ends the consumer, or refuses something.
fn failures() {
    let o = options();
    let what = choose(6);
    rt().block_on(async {
        let c = connect(Serializer::default(), None).await;
        let bcast = matches!(o.syndication_mode, SyndicationMode::Broadcast);
        if what == 0 {
            let m = ["queue.declare", "exchange.declare", "queue.bind"][choose(if bcast { 3 } else { 1 })];
            log(format!("{m} is refused"));
            broker().lock().fail = Some(m);
            let r = soon(c.declare_queue("q", o), "declaring ends").await;
            post!(r.is_err(), "a refused declaration is an error");
            return;
        }
        let q = soon(c.declare_queue("q", o), "declaring ends").await.unwrap();
        if what == 1 {
            log("basic.consume is refused");
            broker().lock().fail = Some("basic.consume");
            let r = soon(q.declare_consumer::<u32>("k"), "declaring a consumer ends").await;
            post!(r.is_err(), "a refused consumer is an error");
            return;
        }
        if what == 2 {
            let m = ["queue.delete", "exchange.delete"][choose(if bcast { 2 } else { 1 })];
            log(format!("{m} is refused"));
            broker().lock().fail = Some(m);
            let r = soon(c.delete_queue("q"), "deleting ends").await;
            post!(r.is_err(), "a refused deletion is an error");
            return;
        }
        let mut k = soon(q.declare_consumer::<u32>("k"), "declaring a consumer ends").await.unwrap();
        q.publisher().publish(&7u32).await.unwrap();
        let (x, a) = soon(k.next(), "every decodable message is yielded").await.unwrap();
        post!(x == 7, "messages are yielded in order, unchanged");
        match what {
            3 => {
                log("the broker cancels the consumer");
                broker().cancel("q");
                let r = soon(k.next(), "the consumer ends when the broker ends it").await;
                post!(r.is_none(), "the consumer ends when the broker ends it");
            }
            4 => {
                log("the broker closes the channel");
                broker().close_channels();
                let r = soon(k.next(), "the consumer ends when the broker ends it").await;
                post!(r.is_none(), "the consumer ends when the broker ends it");
                post!(soon(q.publisher().publish(&8u32), "publishing ends").await.is_err(), "publishing on a closed channel is an error");
                post!(soon(a.ack(), "acknowledging ends").await.is_err(), "acknowledging on a closed channel is an error");
            }
            _ => {
                log("the connection is closed");
                post!(soon(c.close(), "closing ends").await.is_ok(), "closing succeeds");
                let l = broker().log();
                post!(l.contains(&Ev::CloseConnection), "the connection is closed");
                post!(soon(q.publisher().publish(&8u32), "publishing ends").await.is_err(), "publishing on a closed connection is an error");
            }
        }
    });
}
/// A payload that cannot be serialized.
fn unserializable() {
    let o = options();
    rt().block_on(async {
        let c = connect(Serializer::default(), None).await;
        let q = soon(c.declare_queue("q", o), "declaring ends").await.unwrap();
        let r = q.publisher().publish(&crate::ops::X(crate::ops::UNSER)).await;
        post!(r.is_err(), "a payload that cannot be serialized is an error");
        post!(soon(q.publisher().publish(&crate::ops::X(1)), "publishing ends").await.is_ok(), "publishing succeeds if the broker accepts it");
        seen(|l| l.iter().any(|e| matches!(e, Ev::Publish { .. })), "a message is published").await;
        post!(broker().log().iter().filter(|e| matches!(e, Ev::Publish { .. })).count() == 1, "nothing is published for it");
        let _ = c.close().await;
    });
}
/// Deleting a queue deletes it and nothing else.
fn delete() {
    let (o, p) = (options(), options());
    rt().block_on(async {
        let c = connect(Serializer::default(), None).await;
        let _q = soon(c.declare_queue("q", o), "declaring ends").await.unwrap();
        let r = soon(c.declare_queue("r", p), "declaring ends").await.unwrap();
        r.publisher().publish(&5u32).await.unwrap();
        post!(soon(c.delete_queue("q"), "deleting ends").await.is_ok(), "deleting succeeds if the broker does it");
        post!(broker().queue("q").is_none() && !broker().has_exchange("q"), "the queue and its exchange are deleted");
        let bcast = matches!(p.syndication_mode, SyndicationMode::Broadcast);
        post!(broker().queue("r").is_some() && broker().has_exchange("r") == bcast, "nothing else is deleted");
        let mut k = r.declare_consumer::<u32>("k").await.unwrap();
        let (x, _) = soon(k.next(), "every decodable message is yielded").await.unwrap();
        post!(x == 5, "other queues keep their messages");
        let _ = c.close().await;
    });
}
/// A broadcast queue with two consumers.
fn broadcast_two() {
    rt().block_on(async {
        let o = QueueOptions { syndication_mode: SyndicationMode::Broadcast, ..Default::default() };
        let (c, d) = (connect(Serializer::default(), None).await, connect(Serializer::default(), None).await);
        let (q, r) = (soon(c.declare_queue("q", o), "declaring ends").await.unwrap(), soon(d.declare_queue("q", o), "declaring ends").await.unwrap());
        let mut a = soon(q.declare_consumer::<u32>("a"), "declaring a consumer ends").await.unwrap();
        let mut b = soon(r.declare_consumer::<u32>("b"), "declaring a consumer ends").await.unwrap();
        q.publisher().publish(&7u32).await.unwrap();
        let t = Duration::from_millis(300);
        let x = tokio::time::timeout(t, a.next()).await;
        let y = tokio::time::timeout(t, b.next()).await;
        post!(x.is_ok() || y.is_ok(), "a broadcast message reaches a consumer");
        post!(x.is_ok() && y.is_ok(), "a broadcast message reaches every consumer");
        let _ = c.close().await;
        let _ = d.close().await;
    });
}
crate::harnesses![broadcast_two, messages, rand_messages, failures, unserializable, delete];
