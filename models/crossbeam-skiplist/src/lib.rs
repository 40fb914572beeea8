//! Contract of `crossbeam_skiplist::SkipMap`: an ordered map.  Entries stay
//! readable after removal (the real crate defers reclamation); here they are
//! leaked, which is observably the same.
pub use map::SkipMap;
pub mod map {
    use std::borrow::Borrow;
    use std::cell::UnsafeCell;
    use std::ops::{Bound, RangeBounds};

    pub const CAP: usize = 4;
    struct Node<K, V> {
        key: K,
        value: V,
    }
    type P<K, V> = *const Node<K, V>;
    struct Inner<K, V> {
        a: [P<K, V>; CAP],
        len: usize,
    }
    pub struct SkipMap<K, V> {
        s: UnsafeCell<Inner<K, V>>,
    }
    unsafe impl<K: Send + Sync, V: Send + Sync> Send for SkipMap<K, V> {}
    unsafe impl<K: Send + Sync, V: Send + Sync> Sync for SkipMap<K, V> {}

    impl<K, V> Default for SkipMap<K, V> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<K, V> std::fmt::Debug for SkipMap<K, V> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.pad("SkipMap { .. }")
        }
    }
    impl<K, V> SkipMap<K, V> {
        pub const fn new() -> Self {
            SkipMap { s: UnsafeCell::new(Inner { a: [std::ptr::null(); CAP], len: 0 }) }
        }
        #[allow(clippy::mut_from_ref)]
        fn s(&self) -> &mut Inner<K, V> {
            unsafe { &mut *self.s.get() }
        }
        pub fn len(&self) -> usize {
            kenv::step(kenv::MAP);
            self.s().len
        }
        pub fn is_empty(&self) -> bool {
            self.len() == 0
        }
        fn mk(&self, n: P<K, V>) -> Entry<'_, K, V> {
            Entry { map: self, node: n }
        }
    }
    impl<K: Ord, V> SkipMap<K, V> {
        /// Index of the first key >= (strict: >) `k`.
        fn lower<Q: Ord + ?Sized>(&self, k: &Q, strict: bool) -> usize
        where
            K: Borrow<Q>,
        {
            let s = self.s();
            let mut i = 0;
            while i < s.len {
                let nk: &Q = unsafe { (*s.a[i]).key.borrow() };
                if if strict { nk > k } else { nk >= k } {
                    break;
                }
                i += 1;
            }
            i
        }
        fn find<Q: Ord + ?Sized>(&self, k: &Q) -> Option<usize>
        where
            K: Borrow<Q>,
        {
            let i = self.lower(k, false);
            let s = self.s();
            if i < s.len && unsafe { (*s.a[i]).key.borrow() == k } { Some(i) } else { None }
        }
        fn del(&self, i: usize) -> P<K, V> {
            let s = self.s();
            let n = s.a[i];
            let mut j = i + 1;
            while j < s.len {
                s.a[j - 1] = s.a[j];
                j += 1;
            }
            s.len -= 1;
            n
        }
        fn ins(&self, i: usize, n: P<K, V>) {
            let s = self.s();
            if s.len >= CAP {
                kenv::capacity_exceeded()
            }
            let mut j = s.len;
            while j > i {
                s.a[j] = s.a[j - 1];
                j -= 1;
            }
            s.a[i] = n;
            s.len += 1;
        }
        pub fn insert(&self, key: K, value: V) -> Entry<'_, K, V> {
            kenv::step(kenv::MAP);
            let i = self.lower(&key, false);
            let exists = i < self.s().len && unsafe { (*self.s().a[i]).key == key };
            let n = Box::into_raw(Box::new(Node { key, value })) as P<K, V>;
            if exists {
                self.s().a[i] = n;
            } else {
                self.ins(i, n);
            }
            self.mk(n)
        }
        pub fn get_or_insert(&self, key: K, value: V) -> Entry<'_, K, V> {
            self.get_or_insert_with(key, || value)
        }
        pub fn get_or_insert_with<F: FnOnce() -> V>(&self, key: K, f: F) -> Entry<'_, K, V> {
            kenv::step(kenv::MAP);
            match self.find(&key) {
                Some(i) => self.mk(self.s().a[i]),
                None => {
                    let i = self.lower(&key, false);
                    let n = Box::into_raw(Box::new(Node { key, value: f() })) as P<K, V>;
                    self.ins(i, n);
                    self.mk(n)
                }
            }
        }
        pub fn get<Q: Ord + ?Sized>(&self, key: &Q) -> Option<Entry<'_, K, V>>
        where
            K: Borrow<Q>,
        {
            kenv::step(kenv::MAP);
            self.find(key).map(|i| self.mk(self.s().a[i]))
        }
        pub fn contains_key<Q: Ord + ?Sized>(&self, key: &Q) -> bool
        where
            K: Borrow<Q>,
        {
            self.get(key).is_some()
        }
        pub fn remove<Q: Ord + ?Sized>(&self, key: &Q) -> Option<Entry<'_, K, V>>
        where
            K: Borrow<Q>,
        {
            kenv::step(kenv::MAP);
            match self.find(key) {
                Some(i) => Some(self.mk(self.del(i))),
                None => None,
            }
        }
        pub fn front(&self) -> Option<Entry<'_, K, V>> {
            kenv::step(kenv::MAP);
            if self.s().len == 0 { None } else { Some(self.mk(self.s().a[0])) }
        }
        pub fn back(&self) -> Option<Entry<'_, K, V>> {
            kenv::step(kenv::MAP);
            if self.s().len == 0 { None } else { Some(self.mk(self.s().a[self.s().len - 1])) }
        }
        pub fn pop_front(&self) -> Option<Entry<'_, K, V>> {
            kenv::step(kenv::MAP);
            if self.s().len == 0 { None } else { Some(self.mk(self.del(0))) }
        }
        pub fn pop_back(&self) -> Option<Entry<'_, K, V>> {
            kenv::step(kenv::MAP);
            if self.s().len == 0 { None } else { Some(self.mk(self.del(self.s().len - 1))) }
        }
        pub fn clear(&self) {
            kenv::step(kenv::MAP);
            self.s().len = 0;
        }
        fn lo_of<Q: Ord + ?Sized>(&self, b: Bound<&Q>) -> usize
        where
            K: Borrow<Q>,
        {
            match b {
                Bound::Unbounded => 0,
                Bound::Included(k) => self.lower(k, false),
                Bound::Excluded(k) => self.lower(k, true),
            }
        }
        fn hi_of<Q: Ord + ?Sized>(&self, b: Bound<&Q>) -> usize
        where
            K: Borrow<Q>,
        {
            match b {
                Bound::Unbounded => self.s().len,
                Bound::Included(k) => self.lower(k, true),
                Bound::Excluded(k) => self.lower(k, false),
            }
        }
        pub fn lower_bound<'a, Q: Ord + ?Sized>(&'a self, b: Bound<&Q>) -> Option<Entry<'a, K, V>>
        where
            K: Borrow<Q>,
        {
            kenv::step(kenv::MAP);
            let i = self.lo_of(b);
            if i < self.s().len { Some(self.mk(self.s().a[i])) } else { None }
        }
        pub fn upper_bound<'a, Q: Ord + ?Sized>(&'a self, b: Bound<&Q>) -> Option<Entry<'a, K, V>>
        where
            K: Borrow<Q>,
        {
            kenv::step(kenv::MAP);
            let i = self.hi_of(b);
            if i > 0 { Some(self.mk(self.s().a[i - 1])) } else { None }
        }
        pub fn range<Q: Ord + ?Sized, R: RangeBounds<Q>>(&self, r: R) -> Range<'_, K, V>
        where
            K: Borrow<Q>,
        {
            kenv::step(kenv::MAP);
            let lo = self.lo_of(r.start_bound());
            let hi = self.hi_of(r.end_bound());
            let mut a = [std::ptr::null(); CAP];
            let mut n = 0;
            let mut i = lo;
            while i < hi {
                a[n] = self.s().a[i];
                n += 1;
                i += 1;
            }
            Range { map: self, a, i: 0, j: n }
        }
        pub fn iter(&self) -> Range<'_, K, V> {
            kenv::step(kenv::MAP);
            Range { map: self, a: self.s().a, i: 0, j: self.s().len }
        }
    }
    impl<K: Ord, V> FromIterator<(K, V)> for SkipMap<K, V> {
        fn from_iter<I: IntoIterator<Item = (K, V)>>(iter: I) -> Self {
            let m = SkipMap::new();
            for (k, v) in iter {
                m.insert(k, v);
            }
            m
        }
    }
    /// Iterator over a snapshot of the map (the real iterator is weakly
    /// consistent: every outcome of the snapshot is one of its outcomes).
    pub struct Range<'a, K, V> {
        map: &'a SkipMap<K, V>,
        a: [P<K, V>; CAP],
        i: usize,
        j: usize,
    }
    pub type Iter<'a, K, V> = Range<'a, K, V>;
    impl<'a, K, V> Iterator for Range<'a, K, V> {
        type Item = Entry<'a, K, V>;
        fn next(&mut self) -> Option<Entry<'a, K, V>> {
            if self.i >= self.j {
                return None;
            }
            let n = self.a[self.i];
            self.i += 1;
            Some(self.map.mk(n))
        }
    }
    impl<'a, K, V> DoubleEndedIterator for Range<'a, K, V> {
        fn next_back(&mut self) -> Option<Entry<'a, K, V>> {
            if self.i >= self.j {
                return None;
            }
            self.j -= 1;
            Some(self.map.mk(self.a[self.j]))
        }
    }
    impl<'a, K: Ord, V> IntoIterator for &'a SkipMap<K, V> {
        type Item = Entry<'a, K, V>;
        type IntoIter = Range<'a, K, V>;
        fn into_iter(self) -> Self::IntoIter {
            self.iter()
        }
    }

    pub struct Entry<'a, K, V> {
        map: &'a SkipMap<K, V>,
        node: P<K, V>,
    }
    impl<'a, K, V> Entry<'a, K, V> {
        pub fn key(&self) -> &'a K {
            unsafe { &(*self.node).key }
        }
        pub fn value(&self) -> &'a V {
            unsafe { &(*self.node).value }
        }
        fn pos(&self) -> Option<usize> {
            let s = self.map.s();
            let mut i = 0;
            while i < s.len {
                if s.a[i] == self.node {
                    return Some(i);
                }
                i += 1;
            }
            None
        }
        pub fn is_removed(&self) -> bool {
            self.pos().is_none()
        }
    }
    impl<'a, K: Ord, V> Entry<'a, K, V> {
        pub fn remove(&self) -> bool {
            kenv::step(kenv::MAP);
            match self.pos() {
                Some(i) => {
                    self.map.del(i);
                    true
                }
                None => false,
            }
        }
        pub fn next(&self) -> Option<Entry<'a, K, V>> {
            kenv::step(kenv::MAP);
            let i = self.map.lower(self.key(), true);
            if i < self.map.s().len { Some(self.map.mk(self.map.s().a[i])) } else { None }
        }
        pub fn prev(&self) -> Option<Entry<'a, K, V>> {
            kenv::step(kenv::MAP);
            let i = self.map.lower(self.key(), false);
            if i > 0 { Some(self.map.mk(self.map.s().a[i - 1])) } else { None }
        }
    }
    impl<K, V> Clone for Entry<'_, K, V> {
        fn clone(&self) -> Self {
            Entry { map: self.map, node: self.node }
        }
    }
}
