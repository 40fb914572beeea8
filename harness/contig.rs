//! Contract of ContiguousQueue over every content of at most K values (any
//! disjoint ranges, stored in any order).
use crate::common::*;
use crate::nd;
use paladin::contiguous::*;
/// The queue only compares keys: any ordered type will do.
type N = u8;

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
struct V {
    lo: N,
    hi: N,
    id: u8,
}
impl Contiguous for V {
    type Key = N;
    fn is_contiguous(&self, o: &Self) -> bool {
        (self.hi < o.lo && o.lo - self.hi == 1) || (o.hi < self.lo && self.lo - o.hi == 1)
    }
    fn key(&self) -> &N {
        &self.lo
    }
}
fn apart(a: &V, b: &V) -> bool {
    a.hi < b.lo || b.hi < a.lo
}
const K: usize = 2;
/// K + 1 disjoint values: those that are stored, and the one that is offered.
fn values() -> [V; K + 1] {
    let mut a = [V { lo: 0, hi: 0, id: 0 }; K + 1];
    let mut i = 0;
    while i <= K {
        let lo = nd::small_u8(7);
        let len = nd::small_u8(2);
        nd::assume(len < N::MAX - lo);
        a[i] = V { lo, hi: lo + len, id: i as u8 };
        let mut j = 0;
        while j < i {
            nd::assume(apart(&a[j], &a[i]));
            j += 1;
        }
        i += 1;
    }
    a
}

/// acquire_contiguous_pair_or_queue, on a queue filled by `queue`.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
fn acquire() {
    let a = values();
    let n = nd::below(K + 1);
    let q = ManuallyDrop::new(ContiguousQueue::<V>::new());
    let mut i = 0;
    while i < n {
        q.queue(a[i]);
        i += 1;
    }
    let v = a[K];
    let r = q.acquire_contiguous_pair_or_queue(v);
    check(&q, &a, n, v, r);
}
/// The same, on a queue made from a collection.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
fn acquire_from() {
    let a = values();
    let q = ManuallyDrop::new(ContiguousQueue::<V>::from([a[0], a[1]]));
    let v = a[K];
    let r = q.acquire_contiguous_pair_or_queue(v);
    check(&q, &a, 2, v, r);
}
fn check(q: &ContiguousQueue<V>, a: &[V; K + 1], n: usize, v: V, r: Option<(V, V)>) {
    let mut has = false;
    let mut taken = K + 1;
    let mut i = 0;
    while i < n {
        has = has || v.is_contiguous(&a[i]);
        if let Some((l, r)) = &r {
            if *l == a[i] || *r == a[i] {
                taken = i;
            }
        }
        i += 1;
    }
    match &r {
        Some((l, r)) => {
            post!(taken < n, "the partner is a stored value, unchanged");
            post!(*l == v || *r == v, "the value offered is in the pair, unchanged");
            post!(l.hi + 1 == r.lo, "the pair is contiguous, smaller key first");
            post!(q.dequeue(&v.lo).is_none(), "a value that was paired is not stored");
        }
        None => {
            post!(!has, "an adjacent neighbour is found");
            post!(q.dequeue(&v.lo) == Some(v), "a value without neighbour is stored");
        }
    }
    cover!(r.is_none(), "stored");
    cover!(matches!(&r, Some((l, _)) if *l == v), "neighbour above");
    cover!(matches!(&r, Some((_, x)) if *x == v), "neighbour below");
    let mut i = 0;
    while i < n {
        if i == taken {
            post!(q.dequeue(&a[i].lo).is_none(), "the partner is no longer stored");
        } else {
            post!(q.dequeue(&a[i].lo) == Some(a[i]), "the other values stay stored, unchanged");
            post!(q.dequeue(&a[i].lo).is_none(), "a stored value is taken once");
        }
        i += 1;
    }
}
/// queue and dequeue.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(5))]
fn dequeue() {
    let a = values();
    let q = ManuallyDrop::new(ContiguousQueue::<V>::default());
    let n = nd::below(K + 1);
    let mut i = 0;
    while i < n {
        q.queue(a[i]);
        i += 1;
    }
    let k = nd::small_u8(8);
    let r = q.dequeue(&k);
    let mut i = 0;
    let mut want = None;
    while i < n {
        if a[i].lo == k {
            want = Some(a[i]);
        }
        i += 1;
    }
    post!(r == want, "dequeue gives exactly the value stored under the key");
    cover!(r.is_some(), "present");
    cover!(r.is_none(), "absent");
    let mut i = 0;
    while i < n {
        let again = q.dequeue(&a[i].lo);
        post!(again == if a[i].lo == k { None } else { Some(a[i]) }, "dequeue removes that value and no other");
        i += 1;
    }
}

#[cfg(kani)]
mod concurrent {
    use super::*;
    static mut Q: *const ContiguousQueue<V> = std::ptr::null();
    static mut KEYS: [N; 2] = [0; 2];
    static mut TAKEN: [bool; 2] = [false; 2];
    static mut IN: bool = false;
    /// Rely: another thread takes stored values.
    pub fn step(_: u8) {
        unsafe {
            if Q.is_null() || IN {
                return;
            }
            IN = true;
            let i = nd::below(2);
            if nd::any_bool() && !TAKEN[i] {
                TAKEN[i] = (*Q).dequeue(&KEYS[i]).is_some();
            }
            IN = false;
        }
    }
    /// Of two callers that go for the same value only one gets it.
    #[kani::proof]
    #[kani::stub(kenv::step, step)]
    #[kani::unwind(5)]
    fn interference() {
        let a = values();
        let q = ManuallyDrop::new(ContiguousQueue::<V>::from([a[0], a[1]]));
        unsafe {
            KEYS = [a[0].lo, a[1].lo];
            Q = &*q;
        }
        let v = a[K];
        let r = q.acquire_contiguous_pair_or_queue(v);
        unsafe { Q = std::ptr::null() };
        match &r {
            Some((l, r)) => {
                let o = if *l == v { *r } else { *l };
                post!(*l == v || *r == v, "the value offered is in the pair, unchanged");
                post!(l.hi + 1 == r.lo, "the pair is contiguous, smaller key first");
                post!(o == a[0] || o == a[1], "the partner is a stored value, unchanged");
                let i = (o == a[1]) as usize;
                post!(unsafe { !TAKEN[i] }, "a value taken by another caller is not paired");
                post!(q.dequeue(&o.lo).is_none(), "the partner is no longer stored");
            }
            None => {
                post!(q.dequeue(&v.lo) == Some(v), "a value without neighbour is stored");
                let mut i = 0;
                while i < 2 {
                    post!(unsafe { TAKEN[i] } || !v.is_contiguous(&a[i]), "a neighbour nobody took is found");
                    i += 1;
                }
            }
        }
        cover!(unsafe { TAKEN[0] } && r.is_some(), "interference");
        let mut i = 0;
        while i < 2 {
            let paired = matches!(&r, Some((l, r)) if *l == a[i] || *r == a[i]);
            post!(
                q.dequeue(&a[i].lo) == if paired || unsafe { TAKEN[i] } { None } else { Some(a[i]) },
                "the other values stay stored, unchanged"
            );
            i += 1;
        }
    }
}
/// Every history of offering and dequeuing values that are disjoint from those
/// stored, against the set of stored values.
#[cfg(not(kani))]
fn run(steps: usize, top: usize) {
    let q = ContiguousQueue::<V>::new();
    let mut set: Vec<V> = vec![];
    for id in 0..steps as u8 {
        if nd::below(3) == 0 {
            let k = nd::below(top) as u8;
            let i = set.iter().position(|v| v.lo == k);
            post!(q.dequeue(&k) == i.map(|i| set.remove(i)), "dequeue gives exactly the value stored under the key");
            continue;
        }
        let free: Vec<V> = (0..top as u8)
            .flat_map(|lo| (0..3).map(move |n| V { lo, hi: lo + n, id }))
            .filter(|v| set.iter().all(|x| apart(x, v)))
            .collect();
        if free.is_empty() {
            continue;
        }
        let v = free[nd::below(free.len())];
        match q.acquire_contiguous_pair_or_queue(v) {
            None => {
                post!(!set.iter().any(|x| x.is_contiguous(&v)), "an adjacent neighbour is found");
                set.push(v);
            }
            Some((l, r)) => {
                post!(l == v || r == v, "the value offered is in the pair, unchanged");
                post!(l.hi + 1 == r.lo, "the pair is contiguous, smaller key first");
                let o = if l == v { r } else { l };
                let i = set.iter().position(|x| *x == o);
                post!(i.is_some(), "the partner is a stored value, unchanged");
                set.remove(i.unwrap());
            }
        }
    }
    for v in set {
        post!(q.dequeue(&v.lo) == Some(v), "the other values stay stored, unchanged");
    }
}
#[cfg(not(kani))]
fn history() {
    run(4, 5)
}
#[cfg(not(kani))]
fn rand_history() {
    run(12, 8)
}
#[cfg(kani)]
crate::harnesses![acquire, acquire_from, dequeue];
#[cfg(not(kani))]
crate::harnesses![acquire, acquire_from, dequeue, history, rand_history];
