//! The worker's main loop against a broker that records how it answers each
//! task (bounded): histories of tasks, outcomes and commands.
use super::amqp::{broker, seen};
use crate::broker::*;
use crate::common::*;
use crate::{choose, log, nd, post};
use futures::StreamExt;
use paladin::config::{self, Config};
use paladin::operation::{marker::Marker, *};
use paladin::queue::{in_memory::InMemoryConnection, *};
use paladin::runtime::*;
use paladin::serializer::Serializer;
use paladin::task::*;
use paladin::{AbortSignal, RemoteExecute};
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// What the execution of a task does.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Beh {
    Ok,
    /// Fails transiently once, then succeeds.
    Recovers,
    /// Fails transiently until it is given up.
    GivenUp,
    Ignored,
    Fails,
    Panics,
    /// Runs until it is released or told to abort.
    Waits,
}
#[derive(Serialize, Deserialize, RemoteExecute, Debug)]
pub struct Scripted;
struct World {
    executed: Vec<u32>,
    running: Option<AbortSignal>,
    release: bool,
}
static WORLD: Mutex<World> = Mutex::new(World { executed: vec![], running: None, release: false });
fn world() -> std::sync::MutexGuard<'static, World> {
    WORLD.lock().unwrap_or_else(|e| e.into_inner())
}
impl Operation for Scripted {
    type Input = (u32, Beh);
    type Output = u64;
    fn execute(&self, (id, b): (u32, Beh), abort: AbortSignal) -> Result<u64> {
        let nth = {
            let mut w = world();
            w.executed.push(id);
            w.executed.iter().filter(|x| **x == id).count()
        };
        let fail = |i| FatalError::from_str(&format!("failure of {id}"), i).into();
        let retry = |i| {
            let n = std::num::NonZeroU32::new(2).unwrap();
            TransientError::from_str(&format!("failure of {id}"), RetryStrategy::Immediate { max_retries: n }, i).into()
        };
        match b {
            Beh::Recovers if nth == 1 => Err(retry(FatalStrategy::Terminate)),
            Beh::Ok | Beh::Recovers => Ok(id as u64 * 1000),
            Beh::GivenUp => Err(retry(FatalStrategy::Ignore)),
            Beh::Ignored => Err(fail(FatalStrategy::Ignore)),
            Beh::Fails => Err(fail(FatalStrategy::Terminate)),
            Beh::Panics => panic!("the operation panics"),
            Beh::Waits => {
                world().running = Some(abort.clone());
                loop {
                    if abort.as_ref().is_some_and(|a| a.load(SeqCst)) {
                        return Err(fail(FatalStrategy::Ignore));
                    }
                    if world().release {
                        return Ok(id as u64 * 1000);
                    }
                    std::thread::sleep(Duration::from_micros(200));
                }
            }
        }
    }
}
const T: Duration = Duration::from_secs(15);
/// Wait for something of the world.
async fn until(f: impl Fn(&World) -> bool, what: &str) {
    let t = std::time::Instant::now();
    while !f(&world()) {
        if t.elapsed() > T {
            panic!("[P] {what}");
        }
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
}
fn flag(w: &World) -> bool {
    w.running.as_ref().is_some_and(|a| a.as_ref().is_some_and(|a| a.load(SeqCst)))
}
/// What must become of a task.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Want {
    /// The output is sent, the task acknowledged.
    Output,
    /// The error is sent, everyone told to abort, the task refused.
    Error,
    /// The task is refused; nothing is sent.
    Refused,
    /// The same, and it is not executed.
    Skipped,
}
struct Sent {
    id: u32,
    job: String,
    body: Vec<u8>,
    want: Want,
}
struct Worker {
    s: Serializer,
    queue: String,
    main: tokio::task::JoinHandle<anyhow::Result<()>>,
    sent: Vec<Sent>,
    syncs: usize,
}
fn answers(l: &[Ev], body: &[u8]) -> (usize, usize) {
    (l.iter().filter(|e| matches!(e, Ev::Ack(b) if b == body)).count(), l.iter().filter(|e| matches!(e, Ev::Nack { body: b, .. } if b == body)).count())
}
impl Worker {
    async fn start() -> Worker {
        std::panic::set_hook(Box::new(|_| {}));
        *world() = World { executed: vec![], running: None, release: false };
        broker().clear();
        let cbor = nd::any_bool();
        let queue = if nd::any_bool() { Some("my tasks".to_string()) } else { None };
        let c = Config {
            serializer: if cbor { config::Serializer::Cbor } else { config::Serializer::Postcard },
            runtime: config::Runtime::Amqp,
            num_workers: None,
            amqp_uri: Some(broker().uri()),
            task_bus_routing_key: queue.clone(),
        };
        let queue = queue.unwrap_or(TASK_IPC_ROUTING_KEY.into());
        let w = WorkerRuntime::from_config(&c, Marker).await.expect("connect");
        let main = tokio::spawn(async move { w.main_loop().await });
        seen(|l| [queue.as_str(), COMMAND_IPC_ROUTING_KEY].iter().all(|q| l.iter().any(|e| matches!(e, Ev::Consume { queue, .. } if queue == q))), "the worker listens for tasks and commands").await;
        Worker { s: if cbor { Serializer::Cbor } else { Serializer::Postcard }, queue, main, sent: vec![], syncs: 0 }
    }
    /// Send a task (malformed: its input cannot be decoded).
    fn send(&mut self, job: &str, b: Beh, malformed: bool, want: Want) {
        let id = self.sent.len() as u32;
        log(format!("task {id} of job {job}: {b:?}{}", if malformed { ", malformed" } else { "" }));
        let t = Task { routing_key: job.into(), metadata: id as u64, op: &Scripted, input: (id, b) };
        let mut t = t.as_any_task(self.s).unwrap();
        if malformed {
            t.input = bytes::Bytes::new();
        }
        let body = self.s.to_bytes(&t).unwrap().to_vec();
        broker().inject(&self.queue, &body);
        self.sent.push(Sent { id, job: job.into(), body, want });
    }
    /// Wait until the last task is answered.
    async fn answered(&self) {
        let t = self.sent.last().unwrap();
        seen(|l| { let (a, n) = answers(l, &t.body); a + n > 0 }, "the task is answered").await;
        if let Want::Output | Want::Error = t.want {
            seen(|l| l.iter().any(|e| self.result(e).is_some_and(|(k, r)| k == t.job && (matches!(r, AnyTaskResult::Err(_)) || self.of(&r) == Some(t.id)))), "the result is sent to the job").await;
        }
        if let Want::Error = t.want {
            seen(|l| l.iter().any(|e| self.command(e).is_some()), "all workers are told to abort").await;
        }
    }
    /// Tell the worker to abort.
    fn abort(&self, key: &str) -> Vec<u8> {
        log(format!("abort {key}"));
        let b = self.s.to_bytes(&CommandIpc::Abort { routing_key: key.into() }).unwrap().to_vec();
        broker().publish(COMMAND_IPC_ROUTING_KEY, "", &b);
        b
    }
    /// The worker knows of the commands before: they are handled one by one.
    async fn sync(&mut self) {
        self.syncs += 1;
        let b = self.abort(&format!("nothing {}", self.syncs));
        seen(|l| answers(l, &b).0 > 0, "commands are acknowledged").await;
    }
    fn result(&self, e: &Ev) -> Option<(String, AnyTaskResult)> {
        match e {
            Ev::Publish { exchange, key, body, .. } if exchange.is_empty() => {
                Some((key.clone(), self.s.from_bytes(body).unwrap_or_else(|_| panic!("[P] only results are sent to jobs"))))
            }
            _ => None,
        }
    }
    fn of(&self, r: &AnyTaskResult) -> Option<u32> {
        match r {
            AnyTaskResult::Ok(o) => {
                post!(o.serializer.to_string() == self.s.to_string(), "the result is serialized as the task was");
                self.s.from_bytes::<u64>(&o.metadata).ok().map(|x| x as u32)
            }
            _ => None,
        }
    }
    fn command(&self, e: &Ev) -> Option<CommandIpc> {
        match e {
            Ev::Publish { exchange, body, .. } if exchange == COMMAND_IPC_ROUTING_KEY => Some(self.s.from_bytes(body).unwrap_or_else(|_| panic!("[P] only commands are broadcast"))),
            _ => None,
        }
    }
    /// Everything sent was answered as it must be.
    fn check(&self) {
        let l = broker().log();
        let done = world().executed.clone();
        let mut errors = 0;
        for t in &self.sent {
            let (a, n) = answers(&l, &t.body);
            post!(a + n >= 1, "every task is answered");
            post!(a + n <= 1, "a task is answered once");
            let mine: Vec<_> = l.iter().filter_map(|e| self.result(e)).filter(|(k, _)| *k == t.job).map(|x| x.1).collect();
            let out: Vec<_> = mine.iter().filter(|r| self.of(r) == Some(t.id)).collect();
            if t.want == Want::Output {
                post!(a == 1, "an executed task is acknowledged");
                post!(out.len() == 1, "the output is sent to the job, once");
                if let AnyTaskResult::Ok(o) = out[0] {
                    post!(matches!(self.s.from_bytes::<u64>(&o.output), Ok(x) if x == t.id as u64 * 1000), "the output of the operation is sent");
                }
            } else {
                post!(n == 1, "a task that is not executed successfully is negatively acknowledged");
                post!(out.is_empty(), "no output is sent for a failed task");
            }
            if t.want == Want::Skipped {
                post!(!done.contains(&t.id), "tasks of a terminated job are not executed");
            }
            if t.want == Want::Error {
                errors += 1;
                let errs: Vec<_> = mine.iter().filter_map(|r| match r {
                    AnyTaskResult::Err(m) => Some(m),
                    _ => None,
                }).collect();
                post!(errs.len() == 1, "the error is sent to the job, once");
                let own = format!("failure of {}", t.id);
                post!(!errs[0].is_empty() && (!errs[0].contains("failure of") || errs[0].contains(&own)), "the error of the operation is sent");
            }
        }
        post!(l.iter().filter_map(|e| self.result(e)).count() == self.sent.iter().filter(|t| matches!(t.want, Want::Output | Want::Error)).count(), "nothing else is sent to jobs");
        let cs: Vec<_> = l.iter().filter_map(|e| self.command(e)).collect();
        post!(cs.len() == errors, "all workers are told to abort once per terminating error, and only then");
        for CommandIpc::Abort { routing_key } in cs {
            post!(routing_key == COMMAND_IPC_ABORT_ALL_KEY, "the command is to abort everything");
        }
        post!(!l.iter().any(|e| matches!(e, Ev::Bad(_))), "the protocol is followed");
    }
    /// All workers were told to abort while this one was idle, or are now.
    async fn aborts(mut self, running: bool) {
        if !running {
            self.send("another job", Beh::Waits, false, Want::Refused);
        }
        let t = self.sent.last().unwrap();
        let (body, id) = (t.body.clone(), t.id);
        seen(|l| { let (a, n) = answers(l, &body); a + n > 0 }, "an aborted task is answered").await;
        until(|w| !w.executed.contains(&id) || flag(w), "the abort flag of the running operation is raised").await;
        // let the grace period pass, whenever it begins
        let t = std::time::Instant::now();
        while !self.main.is_finished() && t.elapsed() < T {
            tokio::time::pause();
            tokio::time::advance(Duration::from_secs(30)).await;
            tokio::time::resume();
            tokio::time::sleep(Duration::from_millis(5)).await;
        }
        let end = tokio::time::timeout(Duration::from_millis(100), &mut self.main).await;
        post!(end.is_ok(), "the worker stops after an abort");
        post!(matches!(end, Ok(Ok(Ok(())))), "an aborted worker stops without an error");
        self.check();
    }
    /// The worker is still at work.
    async fn works(mut self) {
        self.send("last job", Beh::Ok, false, Want::Output);
        self.answered().await;
        post!(!self.main.is_finished(), "the worker goes on");
        self.check();
        self.main.abort();
    }
}
fn run(f: impl std::future::Future<Output = ()>) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    struct Release;
    impl Drop for Release {
        fn drop(&mut self) {
            world().release = true;
        }
    }
    let r = Release;
    rt.block_on(f);
    drop(r);
    rt.shutdown_background();
}
const JOBS: [&str; 2] = ["job a", "job b"];
/// A history of tasks and commands, one after the other.
fn history(max: usize) {
    run(async {
        let mut w = Worker::start().await;
        let mut over: Vec<&str> = vec![];
        let n = choose(max + 1);
        let mut aborting = false;
        for _ in 0..n {
            let job = JOBS[choose(2)];
            // after a terminating error only its job is predictable
            let k = choose(8);
            if k == 7 {
                nd::assume(!aborting);
                w.abort(job);
                w.sync().await;
                over.push(job);
                continue;
            }
            nd::assume(!aborting || over.contains(&job));
            let (b, want) = [
                (Beh::Ok, Want::Output),
                (Beh::Recovers, Want::Output),
                (Beh::GivenUp, Want::Refused),
                (Beh::Ignored, Want::Refused),
                (Beh::Fails, Want::Error),
                (Beh::Panics, Want::Error),
                (Beh::Ok, Want::Error),
            ][k];
            let want = if over.contains(&job) { Want::Skipped } else { want };
            w.send(job, b, k == 6, want);
            w.answered().await;
            if want == Want::Error {
                over.push(job);
                aborting = true;
            }
        }
        if aborting {
            w.aborts(false).await
        } else {
            w.works().await
        }
    });
}
fn history_2() {
    history(2)
}
fn rand_history() {
    history(12)
}
/// Commands while a task is running, and while none is.
fn commands() {
    run(async {
        let mut w = Worker::start().await;
        let idle = nd::any_bool();
        if idle {
            if nd::any_bool() {
                w.send("job a", Beh::Ok, false, Want::Output);
                w.answered().await;
            }
            w.abort(COMMAND_IPC_ABORT_ALL_KEY);
            return w.aborts(false).await;
        }
        w.send("job a", Beh::Waits, false, Want::Output);
        until(|w| w.running.is_some(), "the task is executed").await;
        if nd::any_bool() {
            w.abort(JOBS[choose(2)]);
            w.sync().await;
            tokio::time::sleep(Duration::from_millis(2)).await;
            post!(!flag(&world()), "the running operation is told to abort only if all are");
        }
        if nd::any_bool() {
            world().release = true;
            w.answered().await;
            w.works().await;
        } else {
            w.sent.last_mut().unwrap().want = Want::Refused;
            w.abort(COMMAND_IPC_ABORT_ALL_KEY);
            until(flag, "the abort flag of the running operation is raised").await;
            w.aborts(true).await
        }
    });
}
/// Many tasks at once, none of which ends the job.
fn rand_flood() {
    run(async {
        let mut w = Worker::start().await;
        let n = 1 + choose(30);
        for _ in 0..n {
            let (b, want) = [(Beh::Ok, Want::Output), (Beh::Recovers, Want::Output), (Beh::Ignored, Want::Refused), (Beh::GivenUp, Want::Refused)][choose(4)];
            w.send(JOBS[choose(2)], b, false, want);
        }
        w.works().await
    });
}
/// A refused result channel ends the main loop with an error.
fn undeliverable() {
    run(async {
        let mut w = Worker::start().await;
        broker().lock().fail = Some("queue.declare");
        w.send("job a", if nd::any_bool() { Beh::Ok } else { Beh::Fails }, false, Want::Output);
        let end = tokio::time::timeout(T, &mut w.main).await;
        post!(matches!(end, Ok(Ok(Err(_)))), "a result that cannot be sent is an error");
    });
}
/// Several workers, in memory: a terminating error of one task raises the flag
/// of another, running elsewhere, and the leader learns of it.
fn emulated() {
    run(async {
        std::panic::set_hook(Box::new(|_| {}));
        *world() = World { executed: vec![], running: None, release: false };
        let n = 2 + choose(3);
        let c = Config { runtime: config::Runtime::InMemory, num_workers: Some(n), ..Default::default() };
        let rt = Runtime::from_config(&c, Marker).await.expect("in memory");
        let b = [Beh::Fails, Beh::Panics][choose(2)];
        use paladin::directive::*;
        // the failing task comes once the other is running
        let st = futures::stream::iter(0..2u32).then(|i| async move {
            if i == 1 {
                until(|w| w.running.is_some(), "a task is executed while others run").await;
            }
            Ok((i as usize, (i, if i == 0 { Beh::Waits } else { b })))
        });
        let r = async {
            let mut out = IndexedStream::new(st.boxed()).f_map(&Scripted, &rt).await?;
            while let Some(x) = out.next().await {
                x?;
            }
            anyhow::Ok(())
        };
        let r = tokio::time::timeout(T, r).await;
        post!(matches!(r, Ok(Err(_))), "the job fails");
        until(flag, "the abort flag of an operation running on another worker is raised").await;
    });
}
crate::harnesses![emulated, history_2, rand_history, commands, rand_flood, undeliverable];
