//! Map of an IndexedStream and of a Literal, as a whole, under every schedule
//! of: input arriving, the map being polled, tasks being executed (bounded).
use crate::ops::*;
use crate::sim::*;
use crate::{choose, log, post, Fut};
use futures::StreamExt;
use paladin::directive::*;
use paladin::task::AnyTask;

type Item = anyhow::Result<(usize, X)>;
type Out = anyhow::Result<(usize, (u32, X))>;
struct Job<'a> {
    tag: u32,
    /// Index and value; `None`: an error of the input.
    items: Vec<(usize, Option<u32>)>,
    inp: In<Item>,
    f: Fut<'a, ()>,
    ended: bool,
    next: usize,
}
/// Runs a map of each of `jobs`, concurrently; their outputs.
fn map(jobs: &[(u32, Vec<(usize, Option<u32>)>)], seeds: usize) -> Vec<Vec<Out>> {
    let s = Sim::new(seeds);
    let mut tasks: Tasks = crate::now(s.worker.get_task_receiver()).unwrap();
    let outs: Vec<_> = jobs.iter().map(|_| std::cell::RefCell::new(Vec::<Out>::new())).collect();
    let ops: Vec<_> = jobs.iter().map(|j| Tag(j.0)).collect();
    let mut js: Vec<Job> = jobs
        .iter()
        .enumerate()
        .map(|(k, (tag, items))| {
            let inp = In::<Item>::new();
            let st = IndexedStream::new(inp.clone());
            let (out, op, rt) = (&outs[k], &ops[k], &s.runtime);
            let f = Fut::new(async move {
                match st.f_map(op, rt).await {
                    Err(e) => out.borrow_mut().push(Err(e)),
                    Ok(mut r) => {
                        while let Some(x) = r.next().await {
                            log(format!("output {:?}", x.as_ref().map_err(|e| e.to_string())));
                            let bad = x.is_err();
                            out.borrow_mut().push(x);
                            if bad {
                                break;
                            }
                        }
                    }
                }
            });
            Job { tag: *tag, items: items.clone(), inp, f, ended: false, next: 0 }
        })
        .collect();
    let mut pend: Vec<AnyTask> = vec![];
    loop {
        drain(&mut tasks, &mut pend);
        if js.iter().all(|j| j.f.out.is_some()) {
            break;
        }
        let mut acts: Vec<(u8, usize)> = vec![];
        for (k, j) in js.iter().enumerate() {
            if j.f.runnable() {
                acts.push((0, k))
            }
            if !j.ended {
                acts.push((if j.next < j.items.len() { 1 } else { 2 }, k))
            }
        }
        acts.extend((0..pend.len()).map(|i| (3, i)));
        post!(!acts.is_empty(), "the map ends once its input and tasks have");
        let (a, k) = acts[choose(acts.len())];
        match a {
            0 => {
                log(format!("poll map {k}"));
                s.poll(&mut js[k].f)
            }
            1 => {
                let j = &mut js[k];
                let (i, x) = j.items[j.next];
                log(format!("input {i} of map {k}"));
                j.next += 1;
                j.inp.push(x.map(|x| (i, X(x))).ok_or_else(|| anyhow::anyhow!("input failed")))
            }
            2 => {
                log(format!("input of map {k} ends"));
                js[k].ended = true;
                js[k].inp.end();
            }
            _ => {
                log(format!("execute task {k}"));
                work(&s, pend.remove(k))
            }
        }
    }
    drop(js);
    outs.into_iter().map(|o| o.into_inner()).collect()
}
/// Every input item has exactly one output item, under its index.
fn complete(tag: u32, items: &[(usize, Option<u32>)], out: Vec<Out>) {
    let mut got = vec![];
    for o in out {
        match o {
            Ok(o) => got.push(o),
            Err(_) => post!(false, "the map succeeds"),
        }
    }
    let mut want: Vec<_> = items.iter().map(|(i, x)| (*i, (tag, X(x.unwrap())))).collect();
    got.sort();
    want.sort();
    post!(got.len() >= want.len(), "no output is missing");
    post!(got.len() <= want.len(), "there is one output per input");
    post!(got == want, "an output carries the index of its input and the value of the operation");
}
fn input(n: usize, base: u32) -> Vec<(usize, Option<u32>)> {
    // indices need be neither in order nor dense
    let mut v: Vec<_> = (0..n).map(|i| (i * ((1 << 33) + 3) + base as usize, Some(base + 10 * i as u32))).collect();
    for i in (1..n).rev() {
        v.swap(i, choose(i + 1));
    }
    v
}
fn one(n: usize, seeds: usize) {
    let items = input(n, 1);
    let mut o = map(&[(5, items.clone())], seeds);
    complete(5, &items, o.remove(0));
}
fn up_to_2() {
    one(choose(3), 1)
}
fn three() {
    one(3, 1)
}
fn rand_many() {
    one(3 + choose(30), 4)
}
fn two(n: usize, m: usize) {
    let (a, b) = (input(n, 1), input(m, 2));
    let mut o = map(&[(5, a.clone()), (6, b.clone())], 1);
    let ob = o.remove(1);
    complete(5, &a, o.remove(0));
    complete(6, &b, ob);
}
/// Two maps on one runtime.
fn two_jobs() {
    two(1, 1)
}
fn rand_two_jobs() {
    two(choose(13), choose(13))
}
/// An error of the input or of an operation appears in the output.
fn errors(n: usize) {
    let mut items = input(n, 1);
    let bad = choose(n);
    items[bad].1 = [None, Some(FAIL), Some(UNSER)][choose(3)];
    let mut o = map(&[(5, items.clone())], 1);
    let o = o.remove(0);
    post!(o.iter().any(|x| x.is_err()), "a failure of the input or of an operation fails the map");
    let mut ok: Vec<_> = o.iter().filter_map(|x| x.as_ref().ok()).collect();
    ok.sort();
    let k = ok.len();
    ok.dedup();
    post!(ok.len() == k, "there is one output per input");
    for (i, (t, x)) in ok {
        post!(*t == 5 && items.contains(&(*i, Some(x.0))), "an output carries the index of its input and the value of the operation");
    }
}
fn errors_2() {
    errors(1 + choose(2))
}
fn rand_errors() {
    errors(2 + choose(20))
}
/// Map of a literal, next to another one.
fn literal() {
    let s = Sim::new(2);
    let mut tasks: Tasks = crate::now(s.worker.get_task_receiver()).unwrap();
    let (x, y) = (7, [8, FAIL, UNSER][choose(3)]);
    let (o1, o2) = (Tag(1), Tag(2));
    let mut f = [Fut::new(Literal(X(x)).f_map(&o1, &s.runtime)), Fut::new(Literal(X(y)).f_map(&o2, &s.runtime))];
    let mut pend: Vec<AnyTask> = vec![];
    loop {
        drain(&mut tasks, &mut pend);
        if f.iter().all(|f| f.out.is_some()) {
            break;
        }
        let mut acts: Vec<usize> = (0..2).filter(|i| f[*i].runnable()).collect();
        acts.extend((0..pend.len()).map(|i| 100 + i));
        post!(!acts.is_empty(), "the map of a literal ends once its task is executed");
        match acts[choose(acts.len())] {
            i if i < 100 => {
                log(format!("poll {i}"));
                s.poll(&mut f[i])
            }
            i => {
                log(format!("execute task {}", i - 100));
                work(&s, pend.remove(i - 100))
            }
        }
    }
    let a = f[0].out.take().unwrap();
    let b = f[1].out.take().unwrap();
    post!(matches!(a, Ok(Literal((1, X(7))))), "the literal of the operation's output is returned");
    if y != 8 {
        post!(b.is_err(), "a failed operation fails the map");
    } else {
        post!(matches!(b, Ok(Literal((2, X(8))))), "the literal of the operation's output is returned");
    }
}
crate::harnesses![up_to_2, three, rand_many, two_jobs, rand_two_jobs, errors_2, rand_errors, literal];
