//! Contracts of Runtime and WorkerRuntime over any channel factory: which
//! channels they open, what is sent on them, and how errors are reported.
use crate::common::*;
use crate::nd;
use bytes::Bytes;
use futures::Stream;
use paladin::acker::Acker;
use paladin::channel::{queue::*, *};
use paladin::operation::*;
use paladin::queue::{in_memory::*, *};
use paladin::runtime::{verif::*, *};
use paladin::serializer::{Serializable, Serializer};
use paladin::task::*;
use std::future::Future;
use std::marker::PhantomData;
use std::pin::Pin;
use std::task::{Context, Poll};

#[derive(Clone, Copy, PartialEq)]
enum Key {
    None,
    Job([u8; 2]),
    Command,
    Task,
    Other,
}
fn key(s: &str) -> Key {
    let b = s.as_bytes();
    // of the keys used here no two have the same length
    if b.len() == 2 {
        Key::Job([b[0], b[1]])
    } else if b.len() == COMMAND_IPC_ROUTING_KEY.len() {
        Key::Command
    } else if b.len() == 1 {
        Key::Task
    } else {
        Key::Other
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Sent {
    None,
    Output([u8; 2], bool),
    Error(usize, [u8; 2]),
    AbortAll,
    Abort,
    Task([u8; 6], bool),
}
fn sent<T>(v: &T) -> Sent {
    let n = std::mem::size_of::<T>();
    let p = v as *const T;
    if n == std::mem::size_of::<AnyTaskResult>() {
        match unsafe { &*(p as *const AnyTaskResult) } {
            AnyTaskResult::Ok(o) => Sent::Output([o.metadata[0], o.output[0]], cbor(&o.serializer)),
            AnyTaskResult::Err(m) => {
                let b = m.as_bytes();
                Sent::Error(b.len(), if b.len() == 2 { [b[0], b[1]] } else { [0; 2] })
            }
        }
    } else if n == std::mem::size_of::<AnyTask>() {
        let t = unsafe { &*(p as *const AnyTask) };
        let k = t.routing_key.as_bytes();
        assert!(k.len() == 2 && t.metadata.len() == 1 && t.op.len() == 1 && t.input.len() == 1);
        Sent::Task([k[0], k[1], t.metadata[0], t.op[0], t.input[0], t.operation_id], cbor(&t.serializer))
    } else {
        assert!(n == std::mem::size_of::<CommandIpc>());
        let CommandIpc::Abort { routing_key: k } = unsafe { &*(p as *const CommandIpc) };
        // no other key here is as long
        if k.len() == COMMAND_IPC_ABORT_ALL_KEY.len() {
            Sent::AbortAll
        } else {
            Sent::Abort
        }
    }
}
fn cbor(s: &Serializer) -> bool {
    matches!(s, Serializer::Cbor)
}
/// What was asked of each sender and receiver, in the order they were opened.
#[derive(Clone, Copy)]
struct End {
    key: Key,
    broadcast: bool,
    receiver: bool,
    published: u8,
    sent: Sent,
    closed: u8,
    late: bool,
}
const NONE: End = End { key: Key::None, broadcast: false, receiver: false, published: 0, sent: Sent::None, closed: 0, late: false };
static mut ENDS: [End; 3] = [NONE; 3];
static mut N: usize = 0;
static mut RELEASED: [Key; 2] = [Key::None; 2];
static mut R: usize = 0;
/// The call that fails (counted from 1; 0: none), the calls so far, and
/// whether one failed.
static mut FAIL: usize = 0;
static mut CALLS: usize = 0;
static mut FAILED: bool = false;
fn fails() -> bool {
    unsafe {
        CALLS += 1;
        let f = CALLS == FAIL;
        FAILED |= f;
        f
    }
}
fn any_failure() {
    unsafe { FAIL = nd::below(9) };
}
/// Contract of Channel::sender, receiver and release (C05-C08, C21).
const ISSUED: [u8; 2] = *b"is";
/// A clone of the connection; nothing is asked of it.
fn another(_: &amqp::AMQPConnection) -> amqp::AMQPConnection {
    let o = amqp::AMQPConnectionOptions { uri: "u", qos: None, serializer: Serializer::default() };
    ManuallyDrop::into_inner(ok(now(amqp::AMQPConnection::new(o))))
}
fn yes() -> bool {
    true
}
fn issued() -> String {
    text(ISSUED)
}
fn open(c: &DynamicChannel, receiver: bool) -> usize {
    unsafe {
        let n = N;
        assert!(n < 3);
        let (id, t) = c.verif_channel();
        ENDS[n].key = key(id);
        ENDS[n].broadcast = t == ChannelType::Broadcast;
        ENDS[n].receiver = receiver;
        N += 1;
        n
    }
}
fn sender<'a, T: Serializable + 'a>(c: &DynamicChannel) -> anyhow::Result<Box<dyn Publisher<T> + Send + Unpin + Sync + 'a>> {
    if fails() {
        Err(err())
    } else {
        Ok(Box::new(Out(open(c, false), PhantomData)) as Box<dyn Publisher<T> + Send + Unpin + Sync + 'a>)
    }
}
type Rx<'a, T> = Box<dyn Stream<Item = (T, Box<dyn Acker>)> + Send + Unpin + 'a>;
fn receiver<'a, T: Serializable + 'a>(c: &DynamicChannel) -> anyhow::Result<Rx<'a, T>> {
    if fails() { Err(err()) } else { Ok(Box::new(In(open(c, true), PhantomData)) as Rx<'a, T>) }
}
fn release(c: &DynamicChannel) {
    unsafe {
        assert!(R < 2);
        RELEASED[R] = key(c.verif_channel().0);
        R += 1;
    }
}
struct Out<T>(usize, PhantomData<fn() -> T>);
#[async_trait::async_trait]
impl<T: Serializable> Publisher<T> for Out<T> {
    async fn publish(&self, v: &T) -> anyhow::Result<()> {
        let e = unsafe { &mut ENDS[self.0] };
        e.late |= e.closed > 0;
        if fails() {
            return Err(err());
        }
        e.published += 1;
        e.sent = sent(v);
        Ok(())
    }
    async fn close(&self) -> anyhow::Result<()> {
        unsafe { ENDS[self.0].closed += 1 };
        res(!fails())
    }
}
/// What the receivers yield: messages made by `ITEM`.
static mut ITEMS: usize = 0;
static mut ITEM: [u8; 4] = [0; 4];
static mut ACKS: usize = 0;
static mut NACKS: usize = 0;
static mut ACK_FAILS: bool = false;
struct In<T>(usize, PhantomData<fn() -> T>);
impl<T> Stream for In<T> {
    type Item = (T, Box<dyn Acker>);
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        unsafe {
            if ITEMS == 0 {
                kenv::register(cx);
                return Poll::Pending;
            }
            ITEMS -= 1;
            Poll::Ready(Some((item(), Box::new(Ack) as Box<dyn Acker>)))
        }
    }
}
fn bytes(x: u8) -> Bytes {
    Bytes::from_static(Box::leak(Box::new([x])))
}
fn text(x: [u8; 2]) -> String {
    unsafe { std::str::from_utf8_unchecked(&x) }.to_string()
}
fn item<T>() -> T {
    let x = unsafe { ITEM };
    if std::mem::size_of::<T>() == std::mem::size_of::<AnyTaskResult>() {
        let r = ManuallyDrop::new(if x[0] == 1 {
            AnyTaskResult::Err(text([x[1], x[2]]))
        } else {
            AnyTaskResult::Ok(AnyTaskOutput {
                metadata: bytes(x[1]),
                output: bytes(x[2]),
                serializer: Serializer::Cbor,
            })
        });
        unsafe { std::mem::transmute_copy(&*r) }
    } else {
        assert!(std::mem::size_of::<T>() == std::mem::size_of::<CommandIpc>());
        let r = ManuallyDrop::new(CommandIpc::Abort { routing_key: text([x[1], x[2]]) });
        unsafe { std::mem::transmute_copy(&*r) }
    }
}
struct Ack;
#[async_trait::async_trait]
impl Acker for Ack {
    async fn ack(&self) -> anyhow::Result<()> {
        unsafe { ACKS += 1 };
        res(!unsafe { ACK_FAILS })
    }
    async fn nack(&self) -> anyhow::Result<()> {
        unsafe { NACKS += 1 };
        res(!unsafe { ACK_FAILS })
    }
}
fn now<F: Future>(f: F) -> F::Output {
    let mut f = ManuallyDrop::new(f);
    match nd::with_cx(|cx| unsafe { Pin::new_unchecked(&mut *f) }.poll(cx)) {
        Poll::Ready(r) => r,
        Poll::Pending => panic!("[P] it waits only for its channels"),
    }
}
fn ok<T>(r: anyhow::Result<T>) -> ManuallyDrop<T> {
    match r {
        Ok(x) => ManuallyDrop::new(x),
        Err(e) => {
            forget(e);
            panic!("[P] the factory does not fail")
        }
    }
}
/// The channels are replaced by their contracts; nothing is asked of this one.
fn factory() -> DynamicChannelFactory {
    let o = amqp::AMQPConnectionOptions { uri: "u", qos: None, serializer: Serializer::default() };
    DynamicChannelFactory::Amqp(QueueChannelFactory::new(ManuallyDrop::into_inner(ok(now(amqp::AMQPConnection::new(o))))))
}
fn worker() -> ManuallyDrop<WorkerRuntime> {
    anyhow::__model::lenient();
    let f = factory();
    let t = ManuallyDrop::into_inner(ok(now(f.get("t".to_string(), ChannelType::ExactlyOnce))));
    ManuallyDrop::new(WorkerRuntime::verif_new(f, t))
}
fn leader(s: Serializer) -> ManuallyDrop<Runtime> {
    anyhow::__model::lenient();
    let f = factory();
    let t = ManuallyDrop::into_inner(ok(now(f.get("t".to_string(), ChannelType::ExactlyOnce))));
    ManuallyDrop::new(Runtime::verif_new(f, t, s))
}
fn ends() -> &'static [End; 3] {
    unsafe { &ENDS }
}
fn reported<T>(r: &anyhow::Result<T>) {
    post!(r.is_ok() == !unsafe { FAILED }, "an error of a channel is reported, and only then");
}
macro_rules! proof {
    ($(#[$d:meta])* fn $n:ident() $b:block) => {
        $(#[$d])*
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::stub(<paladin::queue::amqp::AMQPConnection as std::clone::Clone>::clone, another))]
        #[cfg_attr(kani, kani::stub(paladin::runtime::verif::channel_contracts, yes))]
        #[cfg_attr(kani, kani::stub(paladin::runtime::verif::sender_contract, sender))]
        #[cfg_attr(kani, kani::stub(paladin::runtime::verif::receiver_contract, receiver))]
        #[cfg_attr(kani, kani::stub(paladin::common::get_random_routing_key, issued))]
        #[cfg_attr(kani, kani::stub(<paladin::runtime::verif::DynamicChannel as paladin::channel::Channel>::release, release))]
        #[cfg_attr(kani, kani::stub(paladin::serializer::Serializer::to_bytes, crate::common::own_bytes::to_bytes))]
        #[cfg_attr(kani, kani::stub(paladin::serializer::Serializer::from_bytes, crate::common::own_bytes::from_bytes))]
        #[cfg_attr(kani, kani::stub(std::hash::RandomState::new, crate::common::hash::random_state))]
        fn $n() $b
    };
}
fn any_id() -> [u8; 2] {
    [nd::any_u8() & 127, nd::any_u8() & 127]
}

proof! {
/// get_result_sender: a sender of the exactly-once channel named.
fn result_sender() {
    let w = worker();
    let id = any_id();
    any_failure();
    let r = ManuallyDrop::new(now(w.get_result_sender(text(id))));
    reported(&r);
    if r.is_ok() {
        let e = ends();
        post!(unsafe { N } == 1 && !e[0].receiver && !e[0].broadcast && e[0].key == Key::Job(id), "it is a sender of the exactly-once channel of that identifier");
    }
    cover!(r.is_ok(), "opened");
    cover!(r.is_err(), "failed");
}
}
proof! {
/// get_command_ipc_sender, of leader and worker.
fn command_sender() {
    let broadcast_ok = || unsafe { N } == 1 && !ends()[0].receiver && ends()[0].broadcast && ends()[0].key == Key::Command;
    any_failure();
    if nd::any_bool() {
        let w = worker();
        let r = ManuallyDrop::new(now(w.get_command_ipc_sender()));
        reported(&r);
        post!(r.is_err() || broadcast_ok(), "a worker sends commands to the broadcast channel of commands");
        cover!(r.is_ok(), "worker");
    } else {
        let w = leader(Serializer::default());
        let r = ManuallyDrop::new(now(w.get_command_ipc_sender()));
        reported(&r);
        post!(r.is_err() || broadcast_ok(), "the leader sends commands to the broadcast channel of commands");
        cover!(r.is_ok(), "leader");
    }
}
}
proof! {
/// A successful outcome goes to the channel of its job, once, unchanged.
fn dispatch_ok() {
    let w = worker();
    let (id, x) = (any_id(), any_id());
    any_failure();
    let s = if nd::any_bool() { Serializer::Postcard } else { Serializer::Cbor };
    let output = AnyTaskOutput { metadata: bytes(x[0]), output: bytes(x[1]), serializer: s };
    let r = ManuallyDrop::new(now(w.dispatch_ok(ExecutionOk { routing_key: text(id), output })));
    reported(&r);
    if r.is_ok() {
        let e = &ends()[0];
        post!(unsafe { N } == 1 && !e.receiver && !e.broadcast && e.key == Key::Job(id), "the output goes to the channel the task names, and nowhere else");
        post!(e.published == 1 && e.sent == Sent::Output(x, cbor(&s)), "the output is sent once, unchanged");
        post!(!e.late, "nothing is sent after closing");
    }
    cover!(r.is_ok(), "sent");
    cover!(r.is_err(), "failed");
}
}
struct E([u8; 2]);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(unsafe { std::str::from_utf8_unchecked(&self.0) })
    }
}
impl std::fmt::Debug for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("E")
    }
}
proof! {
/// An ignored error is not sent anywhere.
fn dispatch_ignore() {
    let w = worker();
    let (id, x) = (any_id(), any_id());
    any_failure();
    let r = ManuallyDrop::new(now(w.dispatch_fatal(ExecutionErr::verif_new(text(id), E(x), FatalStrategy::Ignore))));
    post!(r.is_ok() && unsafe { N } == 0, "nothing is sent for an ignored error");
    cover!(r.is_ok(), "done");
}
}
proof! {
/// get_command_ipc_receiver: every command, acknowledged once.
fn command_receiver() {
    let w = worker();
    any_failure();
    unsafe {
        ITEM = [0, nd::any_u8() & 127, nd::any_u8() & 127, 0];
        ACK_FAILS = nd::any_bool();
    }
    let mut r = ManuallyDrop::new(now(w.get_command_ipc_receiver()));
    reported(&r);
    if let Ok(s) = &mut *r {
        post!(unsafe { N } == 1 && ends()[0].receiver && ends()[0].broadcast && ends()[0].key == Key::Command, "it receives from the broadcast channel of commands");
        let p = nd::with_cx(|cx| Pin::new(&mut *s).poll_next(cx));
        post!(p.is_pending(), "without a command it waits");
        unsafe { ITEMS = 1 };
        let p = ManuallyDrop::new(nd::with_cx(|cx| Pin::new(&mut *s).poll_next(cx)));
        match &*p {
            Poll::Ready(Some(CommandIpc::Abort { routing_key: k })) => {
                let b = k.as_bytes();
                post!(b.len() == 2 && unsafe { b[0] == ITEM[1] && b[1] == ITEM[2] }, "the command is passed on unchanged");
            }
            _ => post!(false, "a command is passed on"),
        }
        post!(unsafe { ACKS == 1 && NACKS == 0 }, "a command is acknowledged once");
        cover!(unsafe { ACK_FAILS }, "the acknowledgement fails");
    }
    cover!(r.is_err(), "failed");
}
}
#[derive(serde::Serialize, serde::Deserialize, Debug)]
struct Op(u8);
impl RemoteExecute for Op {
    const ID: u8 = 200;
}
impl Operation for Op {
    type Input = u8;
    type Output = u8;
    fn execute(&self, x: u8, _: paladin::AbortSignal) -> Result<u8> {
        Ok(x)
    }
}
proof! {
/// get_task_receiver.
fn task_receiver() {
    let w = worker();
    any_failure();
    let r = ManuallyDrop::new(now(w.get_task_receiver()));
    reported(&r);
    if r.is_ok() {
        post!(unsafe { N } == 1 && ends()[0].receiver && ends()[0].key == Key::Task, "tasks are received from the task channel");
    }
    cover!(r.is_ok(), "opened");
}
}
crate::harnesses![result_sender, command_sender, command_receiver, task_receiver, dispatch_ok, dispatch_ignore];
