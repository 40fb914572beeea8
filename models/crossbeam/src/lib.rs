//! Contracts of the crossbeam types paladin uses (sequential semantics at each
//! linearisation point; `kenv::step` marks where other threads may run).
pub mod queue {
    use std::cell::{Cell, UnsafeCell};
    /// As many pushes in the life of a queue.
    const CAP: usize = 4;
    pub struct SegQueue<T> {
        // what is left when the queue is dropped is leaked
        a: [UnsafeCell<std::mem::ManuallyDrop<Option<T>>>; CAP],
        head: Cell<usize>,
        tail: Cell<usize>,
    }
    unsafe impl<T: Send> Send for SegQueue<T> {}
    unsafe impl<T: Send> Sync for SegQueue<T> {}
    impl<T> std::panic::UnwindSafe for SegQueue<T> {}
    impl<T> std::panic::RefUnwindSafe for SegQueue<T> {}
    impl<T> SegQueue<T> {
        pub const fn new() -> Self {
            SegQueue { a: [const { UnsafeCell::new(std::mem::ManuallyDrop::new(None)) }; CAP], head: Cell::new(0), tail: Cell::new(0) }
        }
        pub fn push(&self, t: T) {
            kenv::step(kenv::QUEUE);
            let i = self.tail.get();
            if i >= CAP {
                kenv::capacity_exceeded()
            }
            // the slot is empty: nothing to drop
            unsafe { std::ptr::write(self.a[i].get(), std::mem::ManuallyDrop::new(Some(t))) };
            self.tail.set(i + 1);
        }
        pub fn pop(&self) -> Option<T> {
            kenv::step(kenv::QUEUE);
            let i = self.head.get();
            if i == self.tail.get() {
                None
            } else {
                self.head.set(i + 1);
                unsafe { (*self.a[i].get()).take() }
            }
        }
        pub fn len(&self) -> usize {
            kenv::step(kenv::QUEUE);
            self.tail.get() - self.head.get()
        }
        pub fn is_empty(&self) -> bool {
            self.len() == 0
        }
    }
    impl<T> Default for SegQueue<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T> std::fmt::Debug for SegQueue<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.pad("SegQueue { .. }")
        }
    }
}

pub mod atomic {
    use std::cell::UnsafeCell;
    pub struct AtomicCell<T> {
        v: UnsafeCell<T>,
    }
    unsafe impl<T: Send> Send for AtomicCell<T> {}
    unsafe impl<T: Send> Sync for AtomicCell<T> {}
    impl<T> std::panic::UnwindSafe for AtomicCell<T> {}
    impl<T> std::panic::RefUnwindSafe for AtomicCell<T> {}
    impl<T> AtomicCell<T> {
        pub const fn new(v: T) -> Self {
            AtomicCell { v: UnsafeCell::new(v) }
        }
        pub fn into_inner(self) -> T {
            self.v.into_inner()
        }
        pub fn store(&self, v: T) {
            kenv::step(kenv::ATOMIC);
            drop(std::mem::replace(unsafe { &mut *self.v.get() }, v));
        }
        pub fn swap(&self, v: T) -> T {
            kenv::step(kenv::ATOMIC);
            std::mem::replace(unsafe { &mut *self.v.get() }, v)
        }
        pub const fn as_ptr(&self) -> *mut T {
            self.v.get()
        }
        pub const fn is_lock_free() -> bool {
            false
        }
    }
    impl<T: Default> AtomicCell<T> {
        pub fn take(&self) -> T {
            self.swap(T::default())
        }
    }
    impl<T: Copy> AtomicCell<T> {
        pub fn load(&self) -> T {
            kenv::step(kenv::ATOMIC);
            unsafe { *self.v.get() }
        }
    }
    impl<T: Copy + Eq> AtomicCell<T> {
        pub fn compare_exchange(&self, current: T, new: T) -> Result<T, T> {
            kenv::step(kenv::ATOMIC);
            let old = unsafe { *self.v.get() };
            if old == current {
                unsafe { *self.v.get() = new };
                Ok(old)
            } else {
                Err(old)
            }
        }
        pub fn fetch_update<F: FnMut(T) -> Option<T>>(&self, mut f: F) -> Result<T, T> {
            let prev = self.load();
            match f(prev) {
                Some(n) => {
                    self.store(n);
                    Ok(prev)
                }
                None => Err(prev),
            }
        }
    }
    macro_rules! arith { ($($t:ty)*) => {$(
        impl AtomicCell<$t> {
            pub fn fetch_add(&self, v: $t) -> $t { kenv::step(kenv::ATOMIC); let p = unsafe { &mut *self.v.get() }; let o = *p; *p = o.wrapping_add(v); o }
            pub fn fetch_sub(&self, v: $t) -> $t { kenv::step(kenv::ATOMIC); let p = unsafe { &mut *self.v.get() }; let o = *p; *p = o.wrapping_sub(v); o }
            pub fn fetch_max(&self, v: $t) -> $t { kenv::step(kenv::ATOMIC); let p = unsafe { &mut *self.v.get() }; let o = *p; *p = o.max(v); o }
            pub fn fetch_min(&self, v: $t) -> $t { kenv::step(kenv::ATOMIC); let p = unsafe { &mut *self.v.get() }; let o = *p; *p = o.min(v); o }
        }
    )*}}
    arith!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
    impl<T: Default> Default for AtomicCell<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
    impl<T> From<T> for AtomicCell<T> {
        fn from(v: T) -> Self {
            Self::new(v)
        }
    }
    impl<T: Copy + std::fmt::Debug> std::fmt::Debug for AtomicCell<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.debug_struct("AtomicCell").field("value", &self.load()).finish()
        }
    }
}
