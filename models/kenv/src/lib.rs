//! Shared helpers of the dependency contracts.
//!
//! `step` marks every access to state shared between threads.  Proof harnesses
//! replace it (`#[kani::stub]`) by the rely relation of the environment; by
//! default the environment does nothing.

/// A shared-memory access is about to happen.
#[inline(never)]
pub fn step(_what: u8) {}

/// Locks held by the code under proof (another thread that needs one waits).
static HELD: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn held() -> usize {
    unsafe { *HELD.as_ptr() }
}
pub fn hold() {
    unsafe { *HELD.as_ptr() += 1 }
}
pub fn unhold() {
    unsafe { *HELD.as_ptr() -= 1 }
}

/// Identifies the shared object class at a `step`.
pub const ATOMIC: u8 = 0;
pub const QUEUE: u8 = 1;
pub const MAP: u8 = 2;
pub const SEM: u8 = 3;
pub const CHAN: u8 = 4;

/// Nondeterministic choice (a contract may pick any value).
pub fn any_bool() -> bool {
    #[cfg(kani)]
    {
        kani::any()
    }
    #[cfg(not(kani))]
    {
        any_u64() & 1 == 1
    }
}
pub fn any_u32() -> u32 {
    #[cfg(kani)]
    {
        kani::any()
    }
    #[cfg(not(kani))]
    {
        any_u64() as u32
    }
}
pub fn any_u64() -> u64 {
    #[cfg(kani)]
    {
        kani::any()
    }
    #[cfg(not(kani))]
    {
        use std::sync::atomic::{AtomicU64, Ordering};
        static S: AtomicU64 = AtomicU64::new(0x9E3779B97F4A7C15);
        let mut z = S.fetch_add(0x9E3779B97F4A7C15, Ordering::Relaxed);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}
/// A value below `n` (n > 0).
pub fn any_below(n: u32) -> u32 {
    let x = any_u32();
    #[cfg(kani)]
    {
        kani::assume(x < n);
        x
    }
    #[cfg(not(kani))]
    {
        x % n
    }
}
/// The contract's model has no room for this many elements: exclude the path
/// (the bound is reported in the evidence).
pub fn capacity_exceeded() -> ! {
    panic!("contract model capacity exceeded")
}

pub mod slots {
    //! Fixed-capacity storage used by the container contracts.
    pub const CAP: usize = 4;
    pub struct Slots<T> {
        // what is left when the container is dropped is leaked
        pub a: std::mem::ManuallyDrop<[Option<T>; CAP]>,
        pub len: usize,
    }
    impl<T> Slots<T> {
        pub const fn new() -> Self {
            Slots { a: std::mem::ManuallyDrop::new([const { None }; CAP]), len: 0 }
        }
        pub fn push(&mut self, t: T) {
            if self.len >= CAP {
                super::capacity_exceeded()
            }
            self.a[self.len] = Some(t);
            self.len += 1;
        }
        pub fn insert_at(&mut self, i: usize, t: T) {
            if self.len >= CAP {
                super::capacity_exceeded()
            }
            let mut j = self.len;
            while j > i {
                self.a.swap(j, j - 1);
                j -= 1;
            }
            self.a[i] = Some(t);
            self.len += 1;
        }
        pub fn remove_at(&mut self, i: usize) -> T {
            let r = self.a[i].take();
            let mut j = i + 1;
            while j < self.len {
                self.a.swap(j - 1, j);
                j += 1;
            }
            self.len -= 1;
            r.unwrap()
        }
        pub fn get(&self, i: usize) -> Option<&T> {
            if i < self.len { self.a[i].as_ref() } else { None }
        }
        pub fn get_mut(&mut self, i: usize) -> Option<&mut T> {
            if i < self.len { self.a[i].as_mut() } else { None }
        }
    }
}

/// Ghost: how many times a contract has registered a waker because it returned
/// `Pending` (i.e. promised a later wake-up).
static REGISTERED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn register(_cx: &std::task::Context<'_>) {
    // non-atomic on purpose: proofs may intercept atomics
    unsafe { *(REGISTERED.as_ptr()) += 1 }
}
pub fn registered() -> usize {
    unsafe { *REGISTERED.as_ptr() }
}
