//! A message broker that speaks AMQP 0.9.1 on the loopback interface: exchanges,
//! queues, consumers with prefetch, and a record of what clients ask for.
use amq_protocol::frame::{gen_frame, parse_frame, AMQPContentHeader, AMQPFrame, WriteContext};
use amq_protocol::protocol::{basic, channel, connection, exchange, queue, AMQPClass};
use amq_protocol::types::{AMQPValue, FieldTable, LongString};
use std::collections::{BTreeMap, VecDeque};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex, MutexGuard};

/// What clients asked for, in order.
#[derive(Debug, Clone, PartialEq)]
pub enum Ev {
    Declare { queue: String, durable: bool, exclusive: bool, auto_delete: bool, expires: Option<i64> },
    Exchange { name: String, kind: String, durable: bool, auto_delete: bool },
    Bind { queue: String, exchange: String },
    DeleteQueue(String),
    DeleteExchange(String),
    Consume { queue: String, tag: String, no_ack: bool, exclusive: bool },
    Publish { exchange: String, key: String, mode: Option<u8>, body: Vec<u8> },
    /// The body of the message acknowledged.
    Ack(Vec<u8>),
    Nack { body: Vec<u8>, requeue: bool },
    Qos(u16),
    CloseChannel,
    CloseConnection,
    /// Something no client of ours should do.
    Bad(String),
}
#[derive(Default)]
struct Queue {
    msgs: VecDeque<Vec<u8>>,
    consumers: Vec<Consumer>,
    next: usize,
}
#[derive(Clone)]
struct Consumer {
    conn: usize,
    chan: u16,
    tag: String,
    no_ack: bool,
}
#[derive(Default)]
struct Conn {
    out: Option<TcpStream>,
    prefetch: BTreeMap<u16, u16>,
    tags: BTreeMap<u16, u64>,
    /// (channel, delivery tag) -> (consumer tag, queue, body)
    unacked: BTreeMap<(u16, u64), (String, String, Vec<u8>)>,
    open: Vec<u16>,
}
#[derive(Default)]
pub struct State {
    pub log: Vec<Ev>,
    queues: BTreeMap<String, Queue>,
    exchanges: BTreeMap<String, Vec<String>>,
    conns: Vec<Conn>,
    /// The next method of this name is answered by closing the channel.
    pub fail: Option<&'static str>,
}
#[derive(Clone)]
pub struct Broker {
    pub port: u16,
    state: Arc<Mutex<State>>,
}
fn send(out: &mut Option<TcpStream>, frames: &[AMQPFrame]) {
    let mut b = vec![];
    for f in frames {
        b = gen_frame(f)(WriteContext::from(b)).unwrap().write;
    }
    if let Some(s) = out {
        if s.write_all(&b).is_err() {
            *out = None;
        }
    }
}
impl State {
    fn reply(&mut self, conn: usize, chan: u16, m: AMQPClass) {
        send(&mut self.conns[conn].out, &[AMQPFrame::Method(chan, m)]);
    }
    /// Deliver what can be.
    fn pump(&mut self) {
        for (name, q) in &mut self.queues {
            'msgs: while !q.msgs.is_empty() && !q.consumers.is_empty() {
                for k in 0..q.consumers.len() {
                    let i = (q.next + k) % q.consumers.len();
                    let c = q.consumers[i].clone();
                    let cn = &mut self.conns[c.conn];
                    let used = cn.unacked.iter().filter(|((ch, _), u)| *ch == c.chan && u.0 == c.tag).count();
                    let limit = cn.prefetch.get(&c.chan).copied().unwrap_or(0) as usize;
                    if limit > 0 && used >= limit {
                        continue;
                    }
                    q.next = i + 1;
                    let body = q.msgs.pop_front().unwrap();
                    let tag = cn.tags.entry(c.chan).or_default();
                    *tag += 1;
                    let tag = *tag;
                    let mut fs = vec![
                        AMQPFrame::Method(
                            c.chan,
                            AMQPClass::Basic(basic::AMQPMethod::Deliver(basic::Deliver {
                                consumer_tag: c.tag.as_str().into(),
                                delivery_tag: tag,
                                redelivered: false,
                                exchange: "".into(),
                                routing_key: name.as_str().into(),
                            })),
                        ),
                        AMQPFrame::Header(c.chan, 60, Box::new(AMQPContentHeader { class_id: 60, body_size: body.len() as u64, properties: Default::default() })),
                    ];
                    fs.extend(body.chunks(100_000).map(|p| AMQPFrame::Body(c.chan, p.to_vec())));
                    if !c.no_ack {
                        cn.unacked.insert((c.chan, tag), (c.tag.clone(), name.clone(), body));
                    }
                    send(&mut cn.out, &fs);
                    continue 'msgs;
                }
                break;
            }
        }
    }
    fn route(&mut self, exchange: &str, key: &str, body: Vec<u8>) {
        let to = if exchange.is_empty() { vec![key.to_string()] } else { self.exchanges.get(exchange).cloned().unwrap_or_default() };
        for q in to {
            if let Some(q) = self.queues.get_mut(&q) {
                q.msgs.push_back(body.clone());
            }
        }
        self.pump();
    }
    fn settle(&mut self, conn: usize, chan: u16, tag: u64, multiple: bool, requeue: Option<bool>) {
        let c = &mut self.conns[conn];
        let tags: Vec<_> = c.unacked.keys().filter(|(ch, t)| *ch == chan && (*t == tag || multiple && *t < tag)).cloned().collect();
        if tags.is_empty() {
            self.log.push(Ev::Bad(format!("no delivery {tag}")));
        }
        for t in tags {
            let (_, q, body) = self.conns[conn].unacked.remove(&t).unwrap();
            match requeue {
                None => self.log.push(Ev::Ack(body)),
                Some(requeue) => {
                    if requeue {
                        self.queues.entry(q).or_default().msgs.push_front(body.clone());
                    }
                    self.log.push(Ev::Nack { body, requeue });
                }
            }
        }
        self.pump();
    }
    /// Close a channel because of an error.
    fn error(&mut self, conn: usize, chan: u16) {
        self.drop_channel(conn, chan);
        self.reply(
            conn,
            chan,
            AMQPClass::Channel(channel::AMQPMethod::Close(channel::Close { reply_code: 406, reply_text: "PRECONDITION_FAILED".into(), class_id: 0, method_id: 0 })),
        );
    }
    fn drop_channel(&mut self, conn: usize, chan: u16) {
        for q in self.queues.values_mut() {
            q.consumers.retain(|c| !(c.conn == conn && c.chan == chan));
        }
        self.conns[conn].open.retain(|c| *c != chan);
    }
}
impl Broker {
    pub fn start() -> Broker {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let b = Broker { port: l.local_addr().unwrap().port(), state: Default::default() };
        let b2 = b.clone();
        std::thread::spawn(move || {
            for s in l.incoming().flatten() {
                let b = b2.clone();
                std::thread::spawn(move || b.serve(s));
            }
        });
        b
    }
    pub fn uri(&self) -> String {
        format!("amqp://127.0.0.1:{}/%2f", self.port)
    }
    pub fn lock(&self) -> MutexGuard<'_, State> {
        self.state.lock().unwrap()
    }
    /// Forget everything (connections stay).
    pub fn clear(&self) {
        let mut s = self.lock();
        s.log.clear();
        s.queues.clear();
        s.exchanges.clear();
        s.fail = None;
        for c in &mut s.conns {
            c.unacked.clear();
        }
    }
    pub fn log(&self) -> Vec<Ev> {
        self.lock().log.clone()
    }
    /// Put a message into a queue.
    pub fn inject(&self, queue: &str, body: &[u8]) {
        let mut s = self.lock();
        s.queues.entry(queue.to_string()).or_default().msgs.push_back(body.to_vec());
        s.pump();
    }
    /// As a client publishing would.
    pub fn publish(&self, exchange: &str, key: &str, body: &[u8]) {
        self.lock().route(exchange, key, body.to_vec());
    }
    pub fn queue(&self, queue: &str) -> Option<Vec<Vec<u8>>> {
        self.lock().queues.get(queue).map(|q| q.msgs.iter().cloned().collect())
    }
    pub fn has_exchange(&self, name: &str) -> bool {
        self.lock().exchanges.contains_key(name)
    }
    /// End every consumer of a queue.
    pub fn cancel(&self, queue: &str) {
        let mut s = self.lock();
        let cs = std::mem::take(&mut s.queues.entry(queue.to_string()).or_default().consumers);
        for c in cs {
            s.reply(c.conn, c.chan, AMQPClass::Basic(basic::AMQPMethod::Cancel(basic::Cancel { consumer_tag: c.tag.as_str().into(), nowait: true })));
        }
    }
    /// Close every channel with an error.
    pub fn close_channels(&self) {
        let mut s = self.lock();
        for i in 0..s.conns.len() {
            for c in s.conns[i].open.clone() {
                s.error(i, c);
            }
        }
    }
    fn serve(&self, mut s: TcpStream) {
        s.set_nodelay(true).ok();
        let mut h = [0; 8];
        if s.read_exact(&mut h).is_err() {
            return;
        }
        let id = {
            let mut st = self.lock();
            st.conns.push(Conn { out: s.try_clone().ok(), ..Default::default() });
            let id = st.conns.len() - 1;
            st.reply(
                id,
                0,
                AMQPClass::Connection(connection::AMQPMethod::Start(connection::Start {
                    version_major: 0,
                    version_minor: 9,
                    server_properties: FieldTable::default(),
                    mechanisms: LongString::from("PLAIN AMQPLAIN"),
                    locales: LongString::from("en_US"),
                })),
            );
            id
        };
        let mut publishing: BTreeMap<u16, (basic::Publish, Option<u8>, u64, Vec<u8>)> = BTreeMap::new();
        while let Some(f) = read(&mut s) {
            let mut st = self.lock();
            match f {
                AMQPFrame::Method(chan, m) => st.method(id, chan, m, &mut publishing),
                AMQPFrame::Header(chan, _, h) => {
                    if let Some(p) = publishing.get_mut(&chan) {
                        p.1 = *h.properties.delivery_mode();
                        p.2 = h.body_size;
                    }
                    st.published(chan, &mut publishing);
                }
                AMQPFrame::Body(chan, b) => {
                    if let Some(p) = publishing.get_mut(&chan) {
                        p.3.extend(b);
                    }
                    st.published(chan, &mut publishing);
                }
                _ => {}
            }
        }
        let mut st = self.lock();
        st.conns[id].out = None;
        for q in st.queues.values_mut() {
            q.consumers.retain(|c| c.conn != id);
        }
    }
}
impl State {
    fn published(&mut self, chan: u16, p: &mut BTreeMap<u16, (basic::Publish, Option<u8>, u64, Vec<u8>)>) {
        if p.get(&chan).is_some_and(|x| x.3.len() as u64 >= x.2) {
            let (m, mode, _, body) = p.remove(&chan).unwrap();
            self.log.push(Ev::Publish { exchange: m.exchange.to_string(), key: m.routing_key.to_string(), mode, body: body.clone() });
            self.route(m.exchange.as_str(), m.routing_key.as_str(), body);
        }
    }
    fn method(&mut self, id: usize, chan: u16, m: AMQPClass, publishing: &mut BTreeMap<u16, (basic::Publish, Option<u8>, u64, Vec<u8>)>) {
        let name = match &m {
            AMQPClass::Queue(queue::AMQPMethod::Declare(_)) => "queue.declare",
            AMQPClass::Queue(queue::AMQPMethod::Bind(_)) => "queue.bind",
            AMQPClass::Queue(queue::AMQPMethod::Delete(_)) => "queue.delete",
            AMQPClass::Exchange(exchange::AMQPMethod::Declare(_)) => "exchange.declare",
            AMQPClass::Exchange(exchange::AMQPMethod::Delete(_)) => "exchange.delete",
            AMQPClass::Basic(basic::AMQPMethod::Consume(_)) => "basic.consume",
            _ => "",
        };
        if self.fail.is_some_and(|f| f == name) {
            self.fail = None;
            return self.error(id, chan);
        }
        match m {
            AMQPClass::Connection(m) => match m {
                connection::AMQPMethod::StartOk(_) => {
                    self.reply(id, 0, AMQPClass::Connection(connection::AMQPMethod::Tune(connection::Tune { channel_max: 100, frame_max: 131072, heartbeat: 0 })))
                }
                connection::AMQPMethod::Open(_) => self.reply(id, 0, AMQPClass::Connection(connection::AMQPMethod::OpenOk(connection::OpenOk {}))),
                connection::AMQPMethod::Close(_) => {
                    self.log.push(Ev::CloseConnection);
                    self.reply(id, 0, AMQPClass::Connection(connection::AMQPMethod::CloseOk(connection::CloseOk {})))
                }
                _ => {}
            },
            AMQPClass::Channel(m) => match m {
                channel::AMQPMethod::Open(_) => {
                    self.conns[id].open.push(chan);
                    self.reply(id, chan, AMQPClass::Channel(channel::AMQPMethod::OpenOk(channel::OpenOk {})))
                }
                channel::AMQPMethod::Close(_) => {
                    self.log.push(Ev::CloseChannel);
                    self.drop_channel(id, chan);
                    self.reply(id, chan, AMQPClass::Channel(channel::AMQPMethod::CloseOk(channel::CloseOk {})))
                }
                _ => {}
            },
            AMQPClass::Exchange(m) => match m {
                exchange::AMQPMethod::Declare(d) => {
                    self.log.push(Ev::Exchange { name: d.exchange.to_string(), kind: d.kind.to_string(), durable: d.durable, auto_delete: d.auto_delete });
                    self.exchanges.entry(d.exchange.to_string()).or_default();
                    self.reply(id, chan, AMQPClass::Exchange(exchange::AMQPMethod::DeclareOk(exchange::DeclareOk {})))
                }
                exchange::AMQPMethod::Delete(d) => {
                    self.log.push(Ev::DeleteExchange(d.exchange.to_string()));
                    self.exchanges.remove(d.exchange.as_str());
                    self.reply(id, chan, AMQPClass::Exchange(exchange::AMQPMethod::DeleteOk(exchange::DeleteOk {})))
                }
                m => self.log.push(Ev::Bad(format!("{m:?}"))),
            },
            AMQPClass::Queue(m) => match m {
                queue::AMQPMethod::Declare(d) => {
                    let expires = d.arguments.inner().iter().find(|(k, _)| k.as_str() == "x-expires").map(|(_, v)| match v {
                        AMQPValue::LongInt(x) => *x as i64,
                        AMQPValue::LongUInt(x) => *x as i64,
                        AMQPValue::LongLongInt(x) => *x,
                        v => panic!("x-expires {v:?}"),
                    });
                    let name = d.queue.to_string();
                    self.log.push(Ev::Declare { queue: name.clone(), durable: d.durable, exclusive: d.exclusive, auto_delete: d.auto_delete, expires });
                    let n = self.queues.entry(name).or_default().msgs.len() as u32;
                    self.reply(id, chan, AMQPClass::Queue(queue::AMQPMethod::DeclareOk(queue::DeclareOk { queue: d.queue, message_count: n, consumer_count: 0 })))
                }
                queue::AMQPMethod::Bind(b) => {
                    self.log.push(Ev::Bind { queue: b.queue.to_string(), exchange: b.exchange.to_string() });
                    match self.exchanges.get_mut(b.exchange.as_str()) {
                        None => return self.error(id, chan),
                        Some(e) => {
                            if !e.contains(&b.queue.to_string()) {
                                e.push(b.queue.to_string())
                            }
                        }
                    }
                    self.reply(id, chan, AMQPClass::Queue(queue::AMQPMethod::BindOk(queue::BindOk {})))
                }
                queue::AMQPMethod::Delete(d) => {
                    self.log.push(Ev::DeleteQueue(d.queue.to_string()));
                    let q = self.queues.remove(d.queue.as_str()).unwrap_or_default();
                    for e in self.exchanges.values_mut() {
                        e.retain(|x| x != d.queue.as_str());
                    }
                    for c in q.consumers {
                        self.reply(c.conn, c.chan, AMQPClass::Basic(basic::AMQPMethod::Cancel(basic::Cancel { consumer_tag: c.tag.as_str().into(), nowait: true })));
                    }
                    self.reply(id, chan, AMQPClass::Queue(queue::AMQPMethod::DeleteOk(queue::DeleteOk { message_count: q.msgs.len() as u32 })))
                }
                m => self.log.push(Ev::Bad(format!("{m:?}"))),
            },
            AMQPClass::Basic(m) => match m {
                basic::AMQPMethod::Qos(q) => {
                    self.log.push(Ev::Qos(q.prefetch_count));
                    self.conns[id].prefetch.insert(chan, q.prefetch_count);
                    self.reply(id, chan, AMQPClass::Basic(basic::AMQPMethod::QosOk(basic::QosOk {})))
                }
                basic::AMQPMethod::Consume(c) => {
                    self.log.push(Ev::Consume { queue: c.queue.to_string(), tag: c.consumer_tag.to_string(), no_ack: c.no_ack, exclusive: c.exclusive });
                    if !self.queues.contains_key(c.queue.as_str()) {
                        return self.error(id, chan);
                    }
                    let dup = self.queues.values().any(|q| q.consumers.iter().any(|x| x.conn == id && x.chan == chan && x.tag == c.consumer_tag.as_str()));
                    if dup {
                        self.log.push(Ev::Bad(format!("consumer tag {} in use", c.consumer_tag)));
                        return self.error(id, chan);
                    }
                    self.reply(id, chan, AMQPClass::Basic(basic::AMQPMethod::ConsumeOk(basic::ConsumeOk { consumer_tag: c.consumer_tag.clone() })));
                    let q = self.queues.get_mut(c.queue.as_str()).unwrap();
                    q.consumers.push(Consumer { conn: id, chan, tag: c.consumer_tag.to_string(), no_ack: c.no_ack });
                    self.pump();
                }
                basic::AMQPMethod::Cancel(c) => {
                    for q in self.queues.values_mut() {
                        q.consumers.retain(|x| !(x.conn == id && x.tag == c.consumer_tag.as_str()));
                    }
                    if !c.nowait {
                        self.reply(id, chan, AMQPClass::Basic(basic::AMQPMethod::CancelOk(basic::CancelOk { consumer_tag: c.consumer_tag })))
                    }
                }
                basic::AMQPMethod::Publish(p) => {
                    publishing.insert(chan, (p, None, u64::MAX, vec![]));
                }
                basic::AMQPMethod::Ack(a) => self.settle(id, chan, a.delivery_tag, a.multiple, None),
                basic::AMQPMethod::Nack(a) => self.settle(id, chan, a.delivery_tag, a.multiple, Some(a.requeue)),
                basic::AMQPMethod::Reject(a) => self.settle(id, chan, a.delivery_tag, false, Some(a.requeue)),
                _ => {}
            },
            m => self.log.push(Ev::Bad(format!("{m:?}"))),
        }
    }
}
fn read(s: &mut TcpStream) -> Option<AMQPFrame> {
    let mut b = vec![0; 7];
    s.read_exact(&mut b).ok()?;
    let n = u32::from_be_bytes([b[3], b[4], b[5], b[6]]) as usize;
    b.resize(n + 8, 0);
    s.read_exact(&mut b[7..]).ok()?;
    parse_frame(&b[..]).ok().map(|x| x.1)
}
