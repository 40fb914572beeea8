//! Contract of `dashmap` 5.x: a map whose operations are linearisable; guards
//! (`Ref`, `RefMut`, `Entry`) lock the entry's shard.  Here the whole map is
//! one shard; taking a conflicting lock while this thread already holds one is
//! the documented deadlock and fails the obligation "no self-deadlock".
use kenv::slots::Slots;
use std::borrow::Borrow;
use std::cell::{Cell, UnsafeCell};
use std::collections::hash_map::RandomState;
use std::hash::Hash;
use std::marker::PhantomData;

pub struct DashMap<K, V, S = RandomState> {
    s: UnsafeCell<Slots<(K, V)>>,
    lock: Cell<i32>,
    _s: PhantomData<S>,
}
unsafe impl<K: Send, V: Send, S> Send for DashMap<K, V, S> {}
unsafe impl<K: Send + Sync, V: Send + Sync, S> Sync for DashMap<K, V, S> {}
impl<K, V, S> std::panic::UnwindSafe for DashMap<K, V, S> {}
impl<K, V, S> std::panic::RefUnwindSafe for DashMap<K, V, S> {}

pub type ReadOnlyView<K, V, S = RandomState> = DashMap<K, V, S>;

struct Guard<'a> {
    lock: &'a Cell<i32>,
    w: bool,
}
impl<'a> Guard<'a> {
    fn read(lock: &'a Cell<i32>) -> Self {
        kenv::step(kenv::MAP);
        assert!(lock.get() >= 0, "dashmap: no self-deadlock (read while write-locked)");
        lock.set(lock.get() + 1);
        kenv::hold();
        Guard { lock, w: false }
    }
    fn write(lock: &'a Cell<i32>) -> Self {
        kenv::step(kenv::MAP);
        assert!(lock.get() == 0, "dashmap: no self-deadlock (write while locked)");
        lock.set(-1);
        kenv::hold();
        Guard { lock, w: true }
    }
}
impl Drop for Guard<'_> {
    fn drop(&mut self) {
        kenv::unhold();
        if self.w { self.lock.set(0) } else { self.lock.set(self.lock.get() - 1) }
    }
}

impl<K: Eq + Hash, V> Default for DashMap<K, V, RandomState> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K: Eq + Hash + Clone, V: Clone> Clone for DashMap<K, V, RandomState> {
    fn clone(&self) -> Self {
        let m = Self::new();
        for e in self.iter() {
            m.insert(e.key().clone(), e.value().clone());
        }
        m
    }
}
impl<K, V, S> std::fmt::Debug for DashMap<K, V, S> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.pad("DashMap { .. }")
    }
}
impl<K: Eq + Hash, V> FromIterator<(K, V)> for DashMap<K, V, RandomState> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self {
        let m = Self::new();
        for (k, v) in i {
            m.insert(k, v);
        }
        m
    }
}
impl<K: Eq + Hash, V> Extend<(K, V)> for DashMap<K, V, RandomState> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) {
        for (k, v) in i {
            self.insert(k, v);
        }
    }
}

impl<K: Eq + Hash, V> DashMap<K, V, RandomState> {
    pub fn new() -> Self {
        DashMap { s: UnsafeCell::new(Slots::new()), lock: Cell::new(0), _s: PhantomData }
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::new()
    }
    pub fn with_shard_amount(_: usize) -> Self {
        Self::new()
    }
}
impl<K: Eq + Hash, V, S> DashMap<K, V, S> {
    #[allow(clippy::mut_from_ref)]
    fn s(&self) -> &mut Slots<(K, V)> {
        unsafe { &mut *self.s.get() }
    }
    fn find<Q: Eq + Hash + ?Sized>(&self, k: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
    {
        let s = self.s();
        let mut i = 0;
        while i < s.len {
            if let Some((kk, _)) = &s.a[i] {
                if kk.borrow() == k {
                    return Some(i);
                }
            }
            i += 1;
        }
        None
    }
    pub fn insert(&self, k: K, v: V) -> Option<V> {
        let _g = Guard::write(&self.lock);
        match self.find(&k) {
            Some(i) => Some(std::mem::replace(&mut self.s().a[i].as_mut().unwrap().1, v)),
            None => {
                self.s().push((k, v));
                None
            }
        }
    }
    pub fn remove<Q: Eq + Hash + ?Sized>(&self, k: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        let _g = Guard::write(&self.lock);
        self.find(k).map(|i| self.s().remove_at(i))
    }
    pub fn remove_if<Q: Eq + Hash + ?Sized>(&self, k: &Q, f: impl FnOnce(&K, &V) -> bool) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        let _g = Guard::write(&self.lock);
        match self.find(k) {
            Some(i) => {
                let e = self.s().a[i].as_ref().unwrap();
                if f(&e.0, &e.1) { Some(self.s().remove_at(i)) } else { None }
            }
            None => None,
        }
    }
    pub fn get<'a, Q: Eq + Hash + ?Sized>(&'a self, k: &Q) -> Option<mapref::one::Ref<'a, K, V, S>>
    where
        K: Borrow<Q>,
    {
        let g = Guard::read(&self.lock);
        match self.find(k) {
            Some(i) => {
                let e = self.s().a[i].as_ref().unwrap();
                Some(mapref::one::Ref { _g: g, k: &e.0, v: &e.1, _s: PhantomData })
            }
            None => None,
        }
    }
    pub fn get_mut<'a, Q: Eq + Hash + ?Sized>(&'a self, k: &Q) -> Option<mapref::one::RefMut<'a, K, V, S>>
    where
        K: Borrow<Q>,
    {
        let g = Guard::write(&self.lock);
        match self.find(k) {
            Some(i) => {
                let e = self.s().a[i].as_mut().unwrap();
                Some(mapref::one::RefMut { _g: g, k: &e.0, v: &mut e.1, _s: PhantomData })
            }
            None => None,
        }
    }
    pub fn contains_key<Q: Eq + Hash + ?Sized>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.get(k).is_some()
    }
    pub fn view<Q: Eq + Hash + ?Sized, R>(&self, k: &Q, f: impl FnOnce(&K, &V) -> R) -> Option<R>
    where
        K: Borrow<Q>,
    {
        self.get(k).map(|r| f(r.key(), r.value()))
    }
    pub fn alter<Q: Eq + Hash + ?Sized>(&self, k: &Q, f: impl FnOnce(&K, V) -> V)
    where
        K: Borrow<Q>,
    {
        let _g = Guard::write(&self.lock);
        if let Some(i) = self.find(k) {
            let (kk, v) = self.s().a[i].take().unwrap();
            let v = f(&kk, v);
            self.s().a[i] = Some((kk, v));
        }
    }
    pub fn len(&self) -> usize {
        let _g = Guard::read(&self.lock);
        self.s().len
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn clear(&self) {
        self.retain(|_, _| false)
    }
    pub fn shrink_to_fit(&self) {}
    pub fn retain(&self, mut f: impl FnMut(&K, &mut V) -> bool) {
        let _g = Guard::write(&self.lock);
        let mut i = 0;
        while i < self.s().len {
            let e = self.s().a[i].as_mut().unwrap();
            if f(&e.0, &mut e.1) {
                i += 1;
            } else {
                drop(self.s().remove_at(i));
            }
        }
    }
    pub fn entry(&self, key: K) -> mapref::entry::Entry<'_, K, V, S> {
        let g = Guard::write(&self.lock);
        match self.find(&key) {
            Some(i) => mapref::entry::Entry::Occupied(mapref::entry::OccupiedEntry { g, map: self, i, key }),
            None => mapref::entry::Entry::Vacant(mapref::entry::VacantEntry { g, map: self, key }),
        }
    }
    pub fn try_entry(&self, key: K) -> Option<mapref::entry::Entry<'_, K, V, S>> {
        Some(self.entry(key))
    }
    pub fn iter(&self) -> iter::Iter<'_, K, V, S> {
        iter::Iter { map: self, i: 0 }
    }
    pub fn iter_mut(&self) -> iter::IterMut<'_, K, V, S> {
        iter::IterMut { map: self, i: 0 }
    }
}
impl<'a, K: Eq + Hash, V, S> IntoIterator for &'a DashMap<K, V, S> {
    type Item = mapref::multiple::RefMulti<'a, K, V, S>;
    type IntoIter = iter::Iter<'a, K, V, S>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<K: Eq + Hash, V> IntoIterator for DashMap<K, V, RandomState> {
    type Item = (K, V);
    type IntoIter = std::iter::Flatten<std::array::IntoIter<Option<(K, V)>, { kenv::slots::CAP }>>;
    fn into_iter(self) -> Self::IntoIter {
        std::mem::ManuallyDrop::into_inner(self.s.into_inner().a).into_iter().flatten()
    }
}

pub mod iter {
    use super::*;
    pub struct Iter<'a, K, V, S> {
        pub(crate) map: &'a DashMap<K, V, S>,
        pub(crate) i: usize,
    }
    impl<'a, K: Eq + Hash, V, S> Iterator for Iter<'a, K, V, S> {
        type Item = mapref::multiple::RefMulti<'a, K, V, S>;
        fn next(&mut self) -> Option<Self::Item> {
            if self.i >= self.map.s().len {
                return None;
            }
            let g = Guard::read(&self.map.lock);
            let e = self.map.s().a[self.i].as_ref().unwrap();
            self.i += 1;
            Some(mapref::multiple::RefMulti { _g: g, k: &e.0, v: &e.1, _s: PhantomData })
        }
    }
    pub struct IterMut<'a, K, V, S> {
        pub(crate) map: &'a DashMap<K, V, S>,
        pub(crate) i: usize,
    }
    impl<'a, K: Eq + Hash, V, S> Iterator for IterMut<'a, K, V, S> {
        type Item = mapref::multiple::RefMutMulti<'a, K, V, S>;
        fn next(&mut self) -> Option<Self::Item> {
            if self.i >= self.map.s().len {
                return None;
            }
            let g = Guard::write(&self.map.lock);
            let e = self.map.s().a[self.i].as_mut().unwrap();
            self.i += 1;
            Some(mapref::one::RefMut { _g: g, k: &e.0, v: &mut e.1, _s: PhantomData })
        }
    }
}

pub mod mapref {
    pub mod one {
        use super::super::*;
        use std::ops::{Deref, DerefMut};
        pub struct Ref<'a, K, V, S = RandomState> {
            pub(crate) _g: Guard<'a>,
            pub(crate) k: &'a K,
            pub(crate) v: &'a V,
            pub(crate) _s: PhantomData<S>,
        }
        unsafe impl<K: Sync, V: Sync, S> Send for Ref<'_, K, V, S> {}
        unsafe impl<K: Sync, V: Sync, S> Sync for Ref<'_, K, V, S> {}
        impl<'a, K, V, S> Ref<'a, K, V, S> {
            pub fn key(&self) -> &K {
                self.k
            }
            pub fn value(&self) -> &V {
                self.v
            }
            pub fn pair(&self) -> (&K, &V) {
                (self.k, self.v)
            }
        }
        impl<K, V, S> Deref for Ref<'_, K, V, S> {
            type Target = V;
            fn deref(&self) -> &V {
                self.v
            }
        }
        pub struct RefMut<'a, K, V, S = RandomState> {
            pub(crate) _g: Guard<'a>,
            pub(crate) k: &'a K,
            pub(crate) v: &'a mut V,
            pub(crate) _s: PhantomData<S>,
        }
        unsafe impl<K: Sync, V: Sync, S> Send for RefMut<'_, K, V, S> {}
        unsafe impl<K: Sync, V: Sync, S> Sync for RefMut<'_, K, V, S> {}
        impl<'a, K, V, S> RefMut<'a, K, V, S> {
            pub fn key(&self) -> &K {
                self.k
            }
            pub fn value(&self) -> &V {
                self.v
            }
            pub fn value_mut(&mut self) -> &mut V {
                self.v
            }
            pub fn pair(&self) -> (&K, &V) {
                (self.k, self.v)
            }
        }
        impl<K, V, S> Deref for RefMut<'_, K, V, S> {
            type Target = V;
            fn deref(&self) -> &V {
                self.v
            }
        }
        impl<K, V, S> DerefMut for RefMut<'_, K, V, S> {
            fn deref_mut(&mut self) -> &mut V {
                self.v
            }
        }
    }
    pub mod multiple {
        pub use super::one::Ref as RefMulti;
        pub use super::one::RefMut as RefMutMulti;
    }
    pub mod entry {
        use super::super::*;
        use super::one::RefMut;
        pub enum Entry<'a, K, V, S = RandomState> {
            Occupied(OccupiedEntry<'a, K, V, S>),
            Vacant(VacantEntry<'a, K, V, S>),
        }
        pub struct OccupiedEntry<'a, K, V, S = RandomState> {
            pub(crate) g: Guard<'a>,
            pub(crate) map: &'a DashMap<K, V, S>,
            pub(crate) i: usize,
            pub(crate) key: K,
        }
        pub struct VacantEntry<'a, K, V, S = RandomState> {
            pub(crate) g: Guard<'a>,
            pub(crate) map: &'a DashMap<K, V, S>,
            pub(crate) key: K,
        }
        unsafe impl<K: Send + Sync, V: Send + Sync, S> Send for OccupiedEntry<'_, K, V, S> {}
        unsafe impl<K: Send + Sync, V: Send + Sync, S> Send for VacantEntry<'_, K, V, S> {}
        impl<'a, K: Eq + Hash, V, S> OccupiedEntry<'a, K, V, S> {
            fn e(&self) -> &'a mut (K, V) {
                self.map.s().a[self.i].as_mut().unwrap()
            }
            pub fn get(&self) -> &V {
                &self.e().1
            }
            pub fn get_mut(&mut self) -> &mut V {
                &mut self.e().1
            }
            pub fn key(&self) -> &K {
                &self.e().0
            }
            pub fn into_key(self) -> K {
                self.key
            }
            pub fn insert(&mut self, v: V) -> V {
                std::mem::replace(&mut self.e().1, v)
            }
            pub fn into_ref(self) -> RefMut<'a, K, V, S> {
                let e = self.e();
                RefMut { _g: self.g, k: &e.0, v: &mut e.1, _s: PhantomData }
            }
            pub fn remove(self) -> V {
                self.map.s().remove_at(self.i).1
            }
            pub fn remove_entry(self) -> (K, V) {
                self.map.s().remove_at(self.i)
            }
        }
        impl<'a, K: Eq + Hash, V, S> VacantEntry<'a, K, V, S> {
            pub fn insert(self, v: V) -> RefMut<'a, K, V, S> {
                let s = self.map.s();
                s.push((self.key, v));
                let i = s.len - 1;
                let e = s.a[i].as_mut().unwrap();
                RefMut { _g: self.g, k: &e.0, v: &mut e.1, _s: PhantomData }
            }
            pub fn key(&self) -> &K {
                &self.key
            }
            pub fn into_key(self) -> K {
                self.key
            }
        }
        impl<'a, K: Eq + Hash, V, S> Entry<'a, K, V, S> {
            pub fn key(&self) -> &K {
                match self {
                    Entry::Occupied(o) => o.key(),
                    Entry::Vacant(v) => v.key(),
                }
            }
            pub fn and_modify(mut self, f: impl FnOnce(&mut V)) -> Self {
                if let Entry::Occupied(o) = &mut self {
                    f(o.get_mut());
                }
                self
            }
            pub fn or_insert(self, v: V) -> RefMut<'a, K, V, S> {
                self.or_insert_with(|| v)
            }
            pub fn or_insert_with(self, f: impl FnOnce() -> V) -> RefMut<'a, K, V, S> {
                match self {
                    Entry::Occupied(o) => o.into_ref(),
                    Entry::Vacant(v) => v.insert(f()),
                }
            }
            pub fn or_try_insert_with<E>(self, f: impl FnOnce() -> Result<V, E>) -> Result<RefMut<'a, K, V, S>, E> {
                Ok(match self {
                    Entry::Occupied(o) => o.into_ref(),
                    Entry::Vacant(v) => v.insert(f()?),
                })
            }
            pub fn or_default(self) -> RefMut<'a, K, V, S>
            where
                V: Default,
            {
                self.or_insert_with(V::default)
            }
            pub fn insert(self, v: V) -> RefMut<'a, K, V, S> {
                match self {
                    Entry::Occupied(mut o) => {
                        o.insert(v);
                        o.into_ref()
                    }
                    Entry::Vacant(e) => e.insert(v),
                }
            }
        }
    }
}

pub struct DashSet<K, S = RandomState> {
    m: DashMap<K, (), S>,
}
impl<K: Eq + Hash> Default for DashSet<K, RandomState> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K: Eq + Hash> DashSet<K, RandomState> {
    pub fn new() -> Self {
        DashSet { m: DashMap::new() }
    }
    pub fn insert(&self, k: K) -> bool {
        self.m.insert(k, ()).is_none()
    }
    pub fn contains<Q: Eq + Hash + ?Sized>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.m.contains_key(k)
    }
    pub fn remove<Q: Eq + Hash + ?Sized>(&self, k: &Q) -> Option<K>
    where
        K: Borrow<Q>,
    {
        self.m.remove(k).map(|e| e.0)
    }
    pub fn len(&self) -> usize {
        self.m.len()
    }
    pub fn is_empty(&self) -> bool {
        self.m.is_empty()
    }
    pub fn clear(&self) {
        self.m.clear()
    }
}
