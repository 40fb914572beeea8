//! Contract of `lapin` 2.x as far as the code under proof uses it: every call
//! to the broker is recorded as it was made and may fail; a consumer yields
//! whatever the proof harness lets the broker answer.
use std::{
    pin::Pin,
    task::{Context, Poll},
};
#[derive(Debug, Clone)]
pub struct Error(pub &'static str);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub mod types {
    #[derive(Clone, Debug, PartialEq)]
    pub enum AMQPValue {
        LongInt(i32),
        LongLongInt(i64),
        LongUInt(u32),
        Boolean(bool),
    }
    impl From<i32> for AMQPValue {
        fn from(v: i32) -> Self {
            AMQPValue::LongInt(v)
        }
    }
    impl From<i64> for AMQPValue {
        fn from(v: i64) -> Self {
            AMQPValue::LongLongInt(v)
        }
    }
    impl From<u32> for AMQPValue {
        fn from(v: u32) -> Self {
            AMQPValue::LongUInt(v)
        }
    }
    impl From<bool> for AMQPValue {
        fn from(v: bool) -> Self {
            AMQPValue::Boolean(v)
        }
    }
    #[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]
    pub struct ShortString(pub String);
    impl ShortString {
        pub fn as_str(&self) -> &str {
            &self.0
        }
    }
    impl From<&str> for ShortString {
        fn from(v: &str) -> Self {
            ShortString(v.to_string())
        }
    }
    impl From<String> for ShortString {
        fn from(v: String) -> Self {
            ShortString(v)
        }
    }
    #[derive(Clone, Debug, Default, PartialEq)]
    pub struct FieldTable(pub Option<(ShortString, AMQPValue)>);
    impl FieldTable {
        pub fn insert(&mut self, k: ShortString, v: AMQPValue) {
            std::mem::forget(std::mem::replace(&mut self.0, Some((k, v))))
        }
        /// Whether it says `x-expires` with a positive time.
        pub fn expires(&self) -> bool {
            match &self.0 {
                Some((k, v)) => {
                    k.0.len() == 9
                        && k.0.as_bytes()[0] == b'x'
                        && k.0.as_bytes()[2] == b'e'
                        && match v {
                            AMQPValue::LongInt(n) => *n > 0,
                            AMQPValue::LongLongInt(n) => *n > 0,
                            AMQPValue::LongUInt(n) => *n > 0,
                            _ => false,
                        }
                }
                None => false,
            }
        }
    }
}
pub mod options {
    #[derive(Clone, Copy, Debug, Default, PartialEq)]
    pub struct QueueDeclareOptions {
        pub passive: bool,
        pub durable: bool,
        pub exclusive: bool,
        pub auto_delete: bool,
        pub nowait: bool,
    }
    #[derive(Clone, Copy, Debug, Default, PartialEq)]
    pub struct ExchangeDeclareOptions {
        pub passive: bool,
        pub durable: bool,
        pub auto_delete: bool,
        pub internal: bool,
        pub nowait: bool,
    }
    #[derive(Clone, Copy, Debug, Default, PartialEq)]
    pub struct QueueDeleteOptions {
        pub if_unused: bool,
        pub if_empty: bool,
        pub nowait: bool,
    }
    #[derive(Clone, Copy, Debug, Default, PartialEq)]
    pub struct ExchangeDeleteOptions {
        pub if_unused: bool,
        pub nowait: bool,
    }
    #[derive(Clone, Copy, Debug, Default, PartialEq)]
    pub struct QueueBindOptions {
        pub nowait: bool,
    }
    #[derive(Clone, Copy, Debug, Default, PartialEq)]
    pub struct BasicQosOptions {
        pub global: bool,
    }
    #[derive(Clone, Copy, Debug, Default, PartialEq)]
    pub struct BasicPublishOptions {
        pub mandatory: bool,
        pub immediate: bool,
    }
    #[derive(Clone, Copy, Debug, Default, PartialEq)]
    pub struct BasicConsumeOptions {
        pub no_local: bool,
        pub no_ack: bool,
        pub exclusive: bool,
        pub nowait: bool,
    }
    #[derive(Clone, Copy, Debug, Default, PartialEq)]
    pub struct BasicAckOptions {
        pub multiple: bool,
    }
    #[derive(Clone, Copy, Debug, Default, PartialEq)]
    pub struct BasicNackOptions {
        pub multiple: bool,
        pub requeue: bool,
    }
    #[derive(Clone, Copy, Debug, Default, PartialEq)]
    pub struct BasicRejectOptions {
        pub requeue: bool,
    }
}
use options::*;
use types::*;
#[derive(Clone, Debug, PartialEq)]
pub enum ExchangeKind {
    Custom(String),
    Direct,
    Fanout,
    Headers,
    Topic,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct BasicProperties {
    pub delivery_mode: Option<u8>,
}
impl BasicProperties {
    pub fn with_delivery_mode(mut self, m: u8) -> Self {
        self.delivery_mode = Some(m);
        self
    }
}
#[derive(Default, Clone)]
pub struct ConnectionProperties;
impl ConnectionProperties {
    pub fn with_executor<E>(self, _e: E) -> Self {
        self
    }
    pub fn with_reactor<E>(self, _e: E) -> Self {
        self
    }
}

/// A name: its length and its first two bytes.
pub type Name = u32;
pub fn name(s: &str) -> Name {
    let b = s.as_bytes();
    let mut r = (b.len() as u32) << 16;
    if b.len() > 0 {
        r |= (b[0] as u32) << 8
    }
    if b.len() > 1 {
        r |= b[1] as u32
    }
    r
}
/// What the broker was asked for: how often, when (the number of the call; 0
/// for never), and with what arguments.
#[derive(Clone, Copy)]
pub struct Record {
    pub calls: usize,
    /// The call that fails.
    pub fail: usize,
    pub failed: usize,
    pub connects: usize,
    pub channels: usize,
    pub qos: Option<(u16, bool)>,
    pub declares: usize,
    pub declare_at: usize,
    pub declare: (Name, QueueDeclareOptions, bool),
    pub exchanges: usize,
    pub exchange_at: usize,
    pub exchange: (Name, bool, ExchangeDeclareOptions),
    pub binds: usize,
    pub bind_at: usize,
    pub bind: (Name, Name),
    pub deletes: usize,
    pub delete: (Name, QueueDeleteOptions),
    pub exchange_deletes: usize,
    pub exchange_delete: Name,
    pub publishes: usize,
    pub publish: (Name, Name, usize, u8, Option<u8>),
    pub confirms: usize,
    pub consumes: usize,
    pub consume: (Name, Name, BasicConsumeOptions),
    pub closes: (usize, usize),
}
const NO: Name = 0;
pub const RECORD: Record = Record {
    calls: 0,
    fail: 0,
    failed: 0,
    connects: 0,
    channels: 0,
    qos: None,
    declares: 0,
    declare_at: 0,
    declare: (NO, QueueDeclareOptions { passive: false, durable: false, exclusive: false, auto_delete: false, nowait: false }, false),
    exchanges: 0,
    exchange_at: 0,
    exchange: (NO, false, ExchangeDeclareOptions { passive: false, durable: false, auto_delete: false, internal: false, nowait: false }),
    binds: 0,
    bind_at: 0,
    bind: (NO, NO),
    deletes: 0,
    delete: (NO, QueueDeleteOptions { if_unused: false, if_empty: false, nowait: false }),
    exchange_deletes: 0,
    exchange_delete: NO,
    publishes: 0,
    publish: (NO, NO, 0, 0, None),
    confirms: 0,
    consumes: 0,
    consume: (NO, NO, BasicConsumeOptions { no_local: false, no_ack: false, exclusive: false, nowait: false }),
    closes: (0, 0),
};
static mut R: Record = RECORD;
#[allow(static_mut_refs)]
pub fn record() -> &'static mut Record {
    unsafe { &mut R }
}
/// Another call; whether it succeeds.
fn call() -> Result<usize> {
    let r = record();
    r.calls += 1;
    if r.calls == r.fail {
        r.failed += 1;
        Err(Error("refused"))
    } else {
        Ok(r.calls)
    }
}
#[derive(Debug)]
pub struct Connection;
impl Connection {
    pub async fn connect(_uri: &str, _p: ConnectionProperties) -> Result<Self> {
        record().connects += 1;
        call()?;
        Ok(Connection)
    }
    pub async fn create_channel(&self) -> Result<Channel> {
        record().channels += 1;
        call()?;
        Ok(Channel)
    }
    pub async fn close(&self, _c: u16, _t: &str) -> Result<()> {
        record().closes.1 += 1;
        call()?;
        Ok(())
    }
}
#[derive(Clone, Debug)]
pub struct Channel;
pub struct PublisherConfirm;
#[derive(Debug)]
pub enum Confirmation {
    NotRequested,
}
impl std::future::Future for PublisherConfirm {
    type Output = Result<Confirmation>;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        record().confirms += 1;
        Poll::Ready(match call() {
            Ok(_) => Ok(Confirmation::NotRequested),
            Err(e) => Err(e),
        })
    }
}
#[derive(Debug)]
pub struct Queue(pub ShortString);
impl Channel {
    pub async fn basic_qos(&self, p: u16, o: BasicQosOptions) -> Result<()> {
        record().qos = Some((p, o.global));
        call()?;
        Ok(())
    }
    pub async fn exchange_declare(&self, e: &str, k: ExchangeKind, o: ExchangeDeclareOptions, a: FieldTable) -> Result<()> {
        let r = record();
        r.exchanges += 1;
        r.exchange = (name(e), matches!(k, ExchangeKind::Fanout), o);
        std::mem::forget((k, a));
        r.exchange_at = call()?;
        Ok(())
    }
    pub async fn queue_declare(&self, q: &str, o: QueueDeclareOptions, a: FieldTable) -> Result<()> {
        let r = record();
        r.declares += 1;
        r.declare = (name(q), o, a.expires());
        std::mem::forget(a);
        r.declare_at = call()?;
        Ok(())
    }
    pub async fn queue_bind(&self, q: &str, e: &str, _r: &str, _o: QueueBindOptions, a: FieldTable) -> Result<()> {
        let r = record();
        r.binds += 1;
        r.bind = (name(q), name(e));
        std::mem::forget(a);
        r.bind_at = call()?;
        Ok(())
    }
    pub async fn queue_delete(&self, q: &str, o: QueueDeleteOptions) -> Result<u32> {
        let r = record();
        r.deletes += 1;
        r.delete = (name(q), o);
        call()?;
        Ok(0)
    }
    pub async fn exchange_delete(&self, e: &str, _o: ExchangeDeleteOptions) -> Result<()> {
        let r = record();
        r.exchange_deletes += 1;
        r.exchange_delete = name(e);
        call()?;
        Ok(())
    }
    pub async fn basic_publish(&self, e: &str, k: &str, _o: BasicPublishOptions, p: &[u8], pr: BasicProperties) -> Result<PublisherConfirm> {
        let r = record();
        r.publishes += 1;
        r.publish = (name(e), name(k), p.len(), if p.is_empty() { 0 } else { p[0] }, pr.delivery_mode);
        call()?;
        Ok(PublisherConfirm)
    }
    pub async fn basic_consume(&self, q: &str, t: &str, o: BasicConsumeOptions, a: FieldTable) -> Result<Consumer> {
        let r = record();
        r.consumes += 1;
        r.consume = (name(q), name(t), o);
        std::mem::forget(a);
        call()?;
        Ok(Consumer)
    }
    pub async fn close(&self, _c: u16, _t: &str) -> Result<()> {
        record().closes.0 += 1;
        call()?;
        Ok(())
    }
}
/// What the broker answers to the next polls of a consumer, and how each
/// delivery was settled.
#[derive(Clone, Copy, PartialEq)]
pub enum Answer {
    Message(u8),
    Error,
    End,
    Nothing,
}
pub const ANSWERS: usize = 3;
pub struct Script {
    pub answers: [Answer; ANSWERS],
    pub at: usize,
    pub acks: [usize; ANSWERS],
    pub nacks: [usize; ANSWERS],
    pub requeued: usize,
    pub multiple: usize,
}
static mut S: Script =
    Script { answers: [Answer::Nothing; ANSWERS], at: 0, acks: [0; ANSWERS], nacks: [0; ANSWERS], requeued: 0, multiple: 0 };
#[allow(static_mut_refs)]
pub fn script() -> &'static mut Script {
    unsafe { &mut S }
}
#[derive(Clone, Debug)]
pub struct Consumer;
impl futures_core::Stream for Consumer {
    type Item = Result<message::Delivery>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let s = script();
        if s.at >= ANSWERS {
            kenv::register(cx);
            return Poll::Pending;
        }
        let tag = s.at;
        match s.answers[tag] {
            Answer::Message(x) => {
                s.at += 1;
                Poll::Ready(Some(Ok(message::Delivery { delivery_tag: tag as u64, redelivered: false, data: vec![x] })))
            }
            Answer::Error => {
                s.at += 1;
                Poll::Ready(Some(Err(Error("broken"))))
            }
            Answer::End => Poll::Ready(None),
            Answer::Nothing => {
                kenv::register(cx);
                Poll::Pending
            }
        }
    }
}
pub mod message {
    use super::*;
    #[derive(Debug)]
    pub struct Delivery {
        pub delivery_tag: u64,
        pub redelivered: bool,
        pub data: Vec<u8>,
    }
    impl Delivery {
        pub async fn ack(&self, o: BasicAckOptions) -> Result<()> {
            let s = script();
            s.acks[self.delivery_tag as usize] += 1;
            s.multiple += o.multiple as usize;
            call()?;
            Ok(())
        }
        pub async fn nack(&self, o: BasicNackOptions) -> Result<()> {
            let s = script();
            s.nacks[self.delivery_tag as usize] += 1;
            s.multiple += o.multiple as usize;
            s.requeued += o.requeue as usize;
            call()?;
            Ok(())
        }
        pub async fn reject(&self, o: BasicRejectOptions) -> Result<()> {
            let s = script();
            s.nacks[self.delivery_tag as usize] += 1;
            s.requeued += o.requeue as usize;
            call()?;
            Ok(())
        }
    }
}
