//! Contracts of IndexedStream: enumeration and sorted collection.
use crate::common::*;
use crate::nd;
use anyhow::Result;
use futures::Stream;
use paladin::directive::indexed_stream::{from_into_iterator, try_from_into_iterator};
use paladin::directive::IndexedStream;
use std::pin::Pin;
use std::task::{Context, Poll};

const N: usize = 3;
/// The items an indexed stream yields, polled as an executor does.
fn next<T>(s: &mut IndexedStream<'_, T>) -> Poll<Option<Result<(usize, T)>>> {
    nd::with_cx(|cx| Pin::new(s).poll_next(cx))
}
fn items() -> ([u8; N], usize) {
    ([nd::any_u8(), nd::any_u8(), nd::any_u8()], nd::below(N + 1))
}
fn numbered(s: &mut IndexedStream<'_, u8>, a: &[u8; N], n: usize) {
    let mut i = 0;
    while i < n {
        let r = ManuallyDrop::new(next(s));
        post!(matches!(&*r, Poll::Ready(Some(Ok((j, x)))) if *j == i && *x == a[i]), "item i comes next, unchanged, under the number i");
        i += 1;
    }
    post!(matches!(*ManuallyDrop::new(next(s)), Poll::Ready(None)), "the stream ends after the last item");
}
/// Contract of the sort of the standard library, unstable and stable.
#[cfg(kani)]
fn sort<T, F: FnMut(&T, &T) -> bool>(v: &mut [T], less: &mut F) {
    let mut i = 1;
    while i < v.len() {
        let mut j = i;
        while j > 0 && less(&v[j], &v[j - 1]) {
            v.swap(j, j - 1);
            j -= 1;
        }
        i += 1;
    }
}
#[cfg(kani)]
fn stable_sort<T, F: FnMut(&T, &T) -> bool, B>(v: &mut [T], less: &mut F) {
    sort(v, less)
}
/// A sequence of values.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
fn enumerate() {
    let (a, n) = items();
    let mut s = ManuallyDrop::new(from_into_iterator(a.into_iter().take(n)));
    numbered(&mut s, &a, n);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
fn convert() {
    let (a, n) = items();
    let mut s = ManuallyDrop::new(IndexedStream::from(a.into_iter().take(n)));
    numbered(&mut s, &a, n);
}
/// A sequence of values and errors.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
fn try_enumerate() {
    let (a, n) = items();
    let bad = nd::small_u8(8);
    let mut k = 0;
    let mut s = ManuallyDrop::new(try_from_into_iterator(a.into_iter().take(n).map(move |x| {
        k += 1;
        if bad >> (k - 1) & 1 == 1 {
            Err(err())
        } else {
            Ok(x)
        }
    })));
    let mut i = 0;
    while i < n {
        let r = ManuallyDrop::new(next(&mut s));
        if bad >> i & 1 == 1 {
            post!(matches!(&*r, Poll::Ready(Some(Err(e))) if e.is::<std::fmt::Error>()), "an error comes in the place of its item");
        } else {
            post!(matches!(&*r, Poll::Ready(Some(Ok((j, x)))) if *j == i && *x == a[i]), "item i comes next, unchanged, under the number i");
        }
        i += 1;
    }
    post!(matches!(*ManuallyDrop::new(next(&mut s)), Poll::Ready(None)), "the stream ends after the last item");
}
/// A stream that yields `a` with pauses in between (static: concrete for the
/// verifier wherever it is).
struct Src;
struct St {
    a: [(usize, u8); N],
    n: usize,
    bad: usize,
    pause: u8,
    i: usize,
}
static mut ST: St = St { a: [(0, 0); N], n: 0, bad: 0, pause: 0, i: 0 };
impl Stream for Src {
    type Item = Result<(usize, u8)>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let s = unsafe { &mut ST };
        if s.pause >> s.i & 1 == 1 {
            s.pause &= !(1 << s.i);
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if s.i >= s.n {
            return Poll::Ready(None);
        }
        s.i += 1;
        Poll::Ready(Some(if s.i - 1 == s.bad { Err(err()) } else { Ok(s.a[s.i - 1]) }))
    }
}
#[cfg(not(kani))]
use nd::block_on as done;
/// The source does not pause: one poll is enough.
#[cfg(kani)]
fn done<F: std::future::Future>(f: F) -> F::Output {
    let mut f = ManuallyDrop::new(f);
    match nd::with_cx(|cx| unsafe { Pin::new_unchecked(&mut *f) }.poll(cx)) {
        Poll::Ready(r) => r,
        Poll::Pending => panic!("[P] collecting waits only for the stream"),
    }
}
/// into_values_sorted, from any order of distinct indices.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
#[cfg_attr(kani, kani::stub(core::slice::sort::unstable::sort, sort))]
#[cfg_attr(kani, kani::stub(core::slice::sort::stable::sort, stable_sort))]
fn sorted() {
    let (x, _) = items();
    sorted_n(x, N, N, 0);
}
/// An error among the items (and, natively, pauses of the source).
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
#[cfg_attr(kani, kani::stub(core::slice::sort::unstable::sort, sort))]
#[cfg_attr(kani, kani::stub(core::slice::sort::stable::sort, stable_sort))]
fn sorted_err() {
    let (x, n) = items();
    sorted_n(x, n, nd::below(N + 1), if cfg!(kani) { 0 } else { nd::small_u8(16) });
}
#[cfg(kani)]
use nd::any_usize as any_index;
#[cfg(not(kani))]
fn any_index() -> usize {
    [0, 1, 1 << 33, usize::MAX][nd::below(4)]
}
fn sorted_n(x: [u8; N], n: usize, bad: usize, pause: u8) {
    let ix = [any_index(), any_index(), any_index()];
    nd::assume(ix[0] != ix[1] && ix[0] != ix[2] && ix[1] != ix[2]);
    unsafe { ST = St { a: [(ix[0], x[0]), (ix[1], x[1]), (ix[2], x[2])], n, bad, pause, i: 0 } };
    let r = ManuallyDrop::new(done(IndexedStream::new(Src).into_values_sorted()).map(|v| {
        let mut o = [None; N];
        let mut k = 0;
        for x in v {
            post!(k < N, "every value is returned once");
            o[k] = Some(x);
            k += 1;
        }
        (o, k)
    }));
    match &*r {
        Ok((o, k)) => {
            post!(bad >= n, "an error is returned");
            post!(*k == n, "every value is returned once");
            let mut i = 0;
            while i < n {
                let mut rank = 0;
                let mut j = 0;
                while j < n {
                    rank += (ix[j] < ix[i]) as usize;
                    j += 1;
                }
                post!(o[rank] == Some(x[i]), "the values are ordered by index");
                i += 1;
            }
        }
        Err(e) => {
            post!(bad < n, "collecting succeeds unless an item is an error");
            post!(e.is::<std::fmt::Error>(), "the error is returned");
        }
    }
}
/// Longer sequences (sampled): a permutation, pauses, an error.
#[cfg(not(kani))]
fn rand_long() {
    let n = nd::below(120);
    let mut p: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        p.swap(i, crate::choose(i + 1));
    }
    let bad = if crate::choose(3) == 0 && n > 0 { crate::choose(n) } else { n };
    let q = p.clone();
    let items = try_from_into_iterator((0..n).map(move |i| if i == bad { Err(err()) } else { Ok(q[i] * 3) }));
    let items: Vec<_> = nd::block_on(futures::StreamExt::collect(items));
    post!(items.len() == n, "the stream ends after the last item");
    for (i, x) in items.iter().enumerate() {
        post!(matches!(x, Ok((j, x)) if *j == i && *x == p[i] * 3) || i == bad && x.is_err(), "item i comes in its place, unchanged, under the number i");
    }
    let p2 = p.clone();
    let stride = [1, 3, 1 << 33, usize::MAX / 130][crate::choose(4)];
    let s = IndexedStream::new(futures::stream::iter((0..n).map(move |i| if i == bad { Err(err()) } else { Ok((p2[i] * stride, p2[i] * 7)) })));
    match nd::block_on(s.into_values_sorted()) {
        Ok(v) => {
            post!(bad == n, "an error is returned");
            post!(v.into_iter().collect::<Vec<_>>() == (0..n).map(|i| i * 7).collect::<Vec<_>>(), "the values are ordered by index");
        }
        Err(_) => post!(bad < n, "collecting succeeds unless an item is an error"),
    }
}
#[cfg(not(kani))]
crate::harnesses![enumerate, convert, try_enumerate, sorted, sorted_err, rand_long];
