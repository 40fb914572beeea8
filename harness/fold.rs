//! Fold of an IndexedStream, as a whole, under every schedule of: input
//! arriving, the fold being polled, tasks being executed (bounded).
use crate::ops::*;
use crate::sim::*;
use crate::{choose, log, post, Fut};
use paladin::directive::*;
use paladin::task::AnyTask;

type Item = anyhow::Result<(usize, Vec<X>)>;
/// The input: item i is [i]; `None`: an error.
fn item(x: Option<u32>, i: usize) -> Item {
    x.map(|x| (i, vec![X(x)])).ok_or_else(|| anyhow::anyhow!("input failed"))
}
/// Runs a fold of `items`; any of them may arrive first if `any_order`.
fn fold(items: Vec<Option<u32>>, any_order: bool, seeds: usize) -> anyhow::Result<Vec<X>> {
    let s = Sim::new(seeds);
    let inp = In::<Item>::new();
    let mut tasks: Tasks = crate::now(s.worker.get_task_receiver()).unwrap();
    let st = IndexedStream::new(inp.clone());
    let mut f = Fut::new(<IndexedStream<Vec<X>> as Foldable<Vec<X>>>::f_fold(st, &Concat, &s.runtime));
    let mut todo: Vec<usize> = (0..items.len()).collect();
    let mut pend: Vec<AnyTask> = vec![];
    let mut ended = false;
    loop {
        drain(&mut tasks, &mut pend);
        if let Some(r) = f.out.take() {
            log(format!("result {:?}", r.as_ref().map_err(|e| e.to_string())));
            return r;
        }
        let mut acts = vec![];
        if f.runnable() {
            acts.push(0);
        }
        if !ended {
            if todo.is_empty() {
                acts.push(1)
            }
            let n = if any_order { todo.len() } else { todo.len().min(1) };
            acts.extend((0..n).map(|i| 100 + i));
        }
        acts.extend((0..pend.len()).map(|i| 1000 + i));
        post!(!acts.is_empty(), "the fold completes once its input and tasks have");
        match acts[choose(acts.len())] {
            0 => {
                log("poll");
                s.poll(&mut f)
            }
            1 => {
                log("input ends");
                ended = true;
                inp.end();
            }
            x if x < 1000 => {
                let i = todo.remove(x - 100);
                log(format!("input {i}"));
                inp.push(item(items[i], i));
            }
            x => {
                log(format!("execute task {}", x - 1000));
                work(&s, pend.remove(x - 1000));
            }
        }
    }
}
fn ordered(n: usize, any_order: bool, seeds: usize) {
    match fold((0..n as u32).map(Some).collect(), any_order, seeds) {
        Ok(r) => post!(r == (0..n as u32).map(X).collect::<Vec<_>>(), "the fold combines all items in index order"),
        Err(_) => post!(false, "the fold succeeds"),
    }
}
fn up_to_2() {
    ordered(choose(3), true, 4)
}
fn three() {
    ordered(3, true, 2)
}
fn four() {
    ordered(4, true, 1)
}
fn rand_five() {
    ordered(5 + choose(3), true, 16)
}
fn rand_large() {
    ordered(8 + choose(40), choose(2) == 0, 16)
}
/// More items than small integers can count, tasks executed in the order they
/// were dispatched, or last first.
fn long() {
    let n = 66000 + choose(2) as u32;
    let lifo = choose(2) == 1;
    let s = Sim::new(1);
    let mut tasks: Tasks = crate::now(s.worker.get_task_receiver()).unwrap();
    let st = IndexedStream::new(futures::stream::iter((0..n).map(|i| Ok((i as usize, (i, i + 1))))));
    let mut f = Fut::new(<IndexedStream<(u32, u32)> as Foldable<(u32, u32)>>::f_fold(st, &Span, &s.runtime));
    let mut pend = std::collections::VecDeque::new();
    loop {
        let mut new = vec![];
        drain(&mut tasks, &mut new);
        pend.extend(new);
        if let Some(r) = f.out.take() {
            return match r {
                Ok(r) => post!(r == (0, n), "the fold of a long input combines all of it"),
                Err(_) => post!(false, "the fold of a long input succeeds"),
            };
        }
        if f.runnable() {
            s.poll(&mut f);
        } else {
            post!(!pend.is_empty(), "the fold of a long input completes");
            for _ in 0..20 {
                if let Some(t) = if lifo { pend.pop_back() } else { pend.pop_front() } {
                    work(&s, t);
                }
            }
        }
    }
}
/// An error of the input or of an operation is the result of the fold.
fn errors(n: usize) {
    let bad = choose(n);
    let e = [None, Some(FAIL), Some(UNSER)][choose(3)];
    if n == 1 && e.is_some() {
        return; // nothing is combined
    }
    let items = (0..n).map(|i| if i == bad { e } else { Some(i as u32) }).collect();
    post!(fold(items, true, 2).is_err(), "a failure of the input or of an operation fails the fold");
}
fn errors_2() {
    errors(1 + choose(2))
}
fn rand_errors() {
    errors(2 + choose(10))
}
crate::harnesses![up_to_2, three, four, rand_five, rand_large, long, errors_2, rand_errors];
