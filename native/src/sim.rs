//! An in-memory system whose workers are the harness: it decides when the
//! code under test is polled and when each dispatched task is executed.
use crate::*;
use futures::{Stream, StreamExt};
use paladin::channel::{queue::QueueChannelFactory, *};
use paladin::operation::FatalStrategy;
use paladin::queue::{in_memory::*, *};
use paladin::runtime::{verif::*, *};
use paladin::serializer::Serializer;
use paladin::task::*;
use std::sync::{Arc, Mutex};

pub struct Sim {
    pub rt: tokio::runtime::Runtime,
    pub runtime: Runtime,
    pub worker: WorkerRuntime,
    pub conn: InMemoryConnection,
    pub pend: Vec<AnyTask>,
    pub done: usize,
}
pub type Tasks<'a> = Box<dyn Stream<Item = (AnyTask, Box<dyn paladin::acker::Acker>)> + Send + Unpin + 'a>;
impl Sim {
    /// `seeds`: how many seeds of tokio's select! to choose from.
    pub fn new(seeds: usize) -> Self {
        let rt = tokio::runtime::Builder::new_current_thread()
            .rng_seed(tokio::runtime::RngSeed::from_bytes(&[choose(seeds) as u8, 7, 7]))
            .enable_time()
            .start_paused(true)
            .build()
            .unwrap();
        let conn = InMemoryConnection::new(Serializer::default());
        let cf = DynamicChannelFactory::InMemory(QueueChannelFactory::new(conn.clone()));
        let tc = now(cf.get("t".into(), ChannelType::ExactlyOnce)).unwrap();
        let worker = WorkerRuntime::verif_new(cf.clone(), tc.clone());
        let runtime = Runtime::verif_new(cf, tc, Serializer::default());
        Sim { rt, runtime, worker, conn, pend: vec![], done: 0 }
    }
    pub fn poll<T>(&self, f: &mut Fut<'_, T>) {
        self.rt.block_on(async { f.poll() })
    }
}
/// Collect what was dispatched to the workers.
pub fn drain(tasks: &mut Tasks<'_>, pend: &mut Vec<AnyTask>) {
    let mut c = Context::from_waker(Waker::noop());
    while let Poll::Ready(Some((t, a))) = tasks.poll_next_unpin(&mut c) {
        std::mem::forget(a);
        pend.push(t);
    }
}
/// Execute a task and send its result, as a worker does.
pub fn work(s: &Sim, t: AnyTask) {
    let k = t.routing_key.clone();
    match s.rt.block_on(t.remote_execute(None)) {
        Ok(output) => now(s.worker.dispatch_ok(ExecutionOk { routing_key: k, output })).unwrap(),
        Err(e) => {
            let strategy = e.fatal_strategy();
            now(s.worker.dispatch_fatal(ExecutionErr::verif_new(k, e, strategy))).unwrap()
        }
    }
}

/// An input stream fed by the harness.
pub struct Inp<T> {
    pub q: std::collections::VecDeque<T>,
    pub end: bool,
    pub waker: Option<Waker>,
}
pub struct In<T>(pub Arc<Mutex<Inp<T>>>);
impl<T> In<T> {
    pub fn new() -> Self {
        In(Arc::new(Mutex::new(Inp { q: Default::default(), end: false, waker: None })))
    }
    pub fn push(&self, t: T) {
        let mut g = self.0.lock().unwrap();
        g.q.push_back(t);
        if let Some(w) = g.waker.take() {
            w.wake()
        }
    }
    pub fn end(&self) {
        let mut g = self.0.lock().unwrap();
        g.end = true;
        if let Some(w) = g.waker.take() {
            w.wake()
        }
    }
}
impl<T> Clone for In<T> {
    fn clone(&self) -> Self {
        In(self.0.clone())
    }
}
impl<T> Stream for In<T> {
    type Item = T;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let mut i = self.0.lock().unwrap();
        if let Some(x) = i.q.pop_front() {
            return Poll::Ready(Some(x));
        }
        if i.end {
            return Poll::Ready(None);
        }
        i.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}
