//! Coordinated channel through its public interface: every history of
//! publishing (successful, failing, in flight), closing, dropping, polling (by
//! any task) and acknowledging, against the specification (bounded).
use crate::common::*;
use crate::{choose, log, post, Flag};
use futures::Stream;
use paladin::acker::Acker;
use paladin::channel::coordinated_channel::coordinated_channel;
use paladin::queue::Publisher;
use std::collections::VecDeque;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

/// The underlying channel: what is sent waits in `q` until it is received.
#[derive(Default)]
struct Wire {
    q: VecDeque<u8>,
    waker: Option<Waker>,
    /// The answer to the publication in flight.
    answer: Option<bool>,
    calls: usize,
    closes: usize,
    close_fails: bool,
}
#[derive(Clone, Default)]
struct End(Arc<Mutex<Wire>>);
struct Answer(End, u8);
impl std::future::Future for Answer {
    type Output = anyhow::Result<()>;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<anyhow::Result<()>> {
        let w = &mut *self.0 .0.lock().unwrap();
        match w.answer.take() {
            None => Poll::Pending,
            Some(ok) => {
                if ok {
                    w.q.push_back(self.1);
                    if let Some(k) = w.waker.take() {
                        k.wake()
                    }
                }
                Poll::Ready(res(ok))
            }
        }
    }
}
#[async_trait::async_trait]
impl Publisher<u8> for End {
    async fn publish(&self, p: &u8) -> anyhow::Result<()> {
        self.0.lock().unwrap().calls += 1;
        Answer(self.clone(), *p).await
    }
    async fn close(&self) -> anyhow::Result<()> {
        let mut w = self.0.lock().unwrap();
        w.closes += 1;
        res(!w.close_fails)
    }
}
impl Stream for End {
    type Item = u8;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u8>> {
        let mut w = self.0.lock().unwrap();
        match w.q.pop_front() {
            Some(x) => Poll::Ready(Some(x)),
            None => {
                w.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

fn run(steps: usize, sends: usize) {
    let wire = End::default();
    let (p, s) = coordinated_channel::<u8, u8, _, _>(wire.clone(), wire.clone());
    let mut p = Some(Box::new(p));
    let mut s = Box::pin(s);
    // two tasks that may poll the receiver
    let flags = [Arc::new(Flag::default()), Arc::new(Flag::default())];
    let mut last: Option<usize> = None; // the task waiting, if any
    let mut ackers: Vec<(Box<dyn Acker>, usize)> = vec![];
    let (mut sent, mut acked, mut closed, mut next, mut want) = (0usize, 0usize, false, 0u8, VecDeque::new());
    let mut flight: Option<(Pin<Box<dyn std::future::Future<Output = anyhow::Result<()>>>>, u8)> = None;
    for step in 0..steps {
        let mut acts = vec![];
        if p.is_some() && flight.is_none() && (next as usize) < sends {
            acts.push((0, 0));
        }
        if flight.is_some() {
            acts.extend([(1, 0), (1, 1)]);
        }
        if p.is_some() {
            acts.extend([(2, 0), (2, 1)]); // close: the inner publisher fails, or not
            if flight.is_none() {
                acts.push((3, 0)); // drop
            }
        }
        acts.extend([(4, 0), (4, 1)]);
        acts.extend((0..ackers.len()).filter(|k| ackers[*k].1 < 2).flat_map(|k| [(5, 2 * k), (5, 2 * k + 1)]));
        if step + 1 == steps {
            acts = vec![(4, 0)];
        }
        let (a, k) = acts[choose(acts.len())];
        match a {
            0 => {
                log(format!("publish {next}"));
                let before = wire.0.lock().unwrap().calls;
                let q: &'static _ = unsafe { &*(&**p.as_ref().unwrap() as *const paladin::channel::coordinated_channel::coordinated_publisher::CoordinatedPublisher<u8, End>) };
                let x = next;
                next += 1;
                let mut f: Pin<Box<dyn std::future::Future<Output = _>>> = Box::pin(async move { q.publish(&x).await });
                let r = f.as_mut().poll(&mut Context::from_waker(Waker::noop()));
                let calls = wire.0.lock().unwrap().calls - before;
                if closed {
                    post!(matches!(r, Poll::Ready(Err(_))), "publishing on a closed channel fails");
                    post!(calls == 0, "nothing is sent on a closed channel");
                } else {
                    post!(r.is_pending() && calls == 1, "the payload is sent exactly once");
                    flight = Some((f, x));
                }
            }
            1 => {
                log(format!("the publication {}", if k == 1 { "succeeds" } else { "fails" }));
                wire.0.lock().unwrap().answer = Some(k == 1);
                let (mut f, x) = flight.take().unwrap();
                if k == 1 {
                    sent += 1;
                    want.push_back(x);
                }
                let r = f.as_mut().poll(&mut Context::from_waker(Waker::noop()));
                match r {
                    Poll::Ready(r) => post!(r.is_ok() == (k == 1), "publish reports the result of the inner publisher"),
                    _ => post!(false, "publish ends when the inner publisher does"),
                }
            }
            2 => {
                log(format!("close{}", if k == 0 { " (the inner publisher fails)" } else { "" }));
                wire.0.lock().unwrap().close_fails = k == 0;
                let r = crate::now(p.as_ref().unwrap().close());
                post!(r.is_ok() == (k == 1), "close reports the result of the inner publisher");
                // what a failed close leaves is not specified: do not go on
                if r.is_err() {
                    return;
                }
                closed = true;
            }
            3 => {
                log("drop the publisher");
                p = None;
                closed = true;
            }
            4 => {
                log(format!("poll by task {k}"));
                for f in &flags {
                    f.reset()
                }
                last = None;
                let w: Waker = flags[k].clone().into();
                match s.as_mut().poll_next(&mut Context::from_waker(&w)) {
                    Poll::Ready(None) => {
                        log("ends");
                        post!(closed, "the stream ends only after the sender is closed");
                        post!(want.is_empty() && acked == sent && flight.is_none(), "the stream ends only after every sent item was received and acknowledged");
                        return;
                    }
                    Poll::Ready(Some((x, a))) => {
                        log(format!("yields {x}"));
                        post!(want.pop_front() == Some(x), "the items of the underlying receiver are yielded unchanged");
                        ackers.push((Box::new(a), 0));
                    }
                    Poll::Pending => {
                        post!(want.is_empty(), "an available item is yielded");
                        post!(
                            !(closed && acked == sent && flight.is_none()),
                            "a receiver never waits on a channel that is closed and drained"
                        );
                        last = Some(k);
                    }
                }
            }
            _ => {
                log(format!("{} item {}", if k % 2 == 0 { "ack" } else { "nack" }, k / 2));
                let (a, n) = &mut ackers[k / 2];
                acked += (*n == 0) as usize;
                *n += 1;
                let r = crate::now(async { if k % 2 == 0 { a.ack().await } else { a.nack().await } });
                post!(r.is_ok(), "acknowledging succeeds");
            }
        }
        if let Some(k) = last {
            if !want.is_empty() || closed && acked == sent && flight.is_none() {
                post!(flags[k].woken(), "the waiting receiver is woken");
            }
        }
    }
}
fn history() {
    run(7, 2)
}
fn rand_history() {
    run(16, 4)
}
harnesses![history, rand_history];
