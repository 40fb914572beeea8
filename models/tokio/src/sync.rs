use std::cell::{Cell, UnsafeCell};
use std::fmt;
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

// ------------------------------------------------------------- Semaphore
pub struct Semaphore {
    permits: Cell<usize>,
    closed: Cell<bool>,
}
unsafe impl Send for Semaphore {}
unsafe impl Sync for Semaphore {}
impl std::panic::UnwindSafe for Semaphore {}
impl std::panic::RefUnwindSafe for Semaphore {}
impl fmt::Debug for Semaphore {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("Semaphore")
    }
}
#[derive(Debug)]
pub struct AcquireError(());
impl fmt::Display for AcquireError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("semaphore closed")
    }
}
impl std::error::Error for AcquireError {}
#[derive(Debug, PartialEq, Eq)]
pub enum TryAcquireError {
    Closed,
    NoPermits,
}
impl fmt::Display for TryAcquireError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("no permits available or closed")
    }
}
impl std::error::Error for TryAcquireError {}

impl Semaphore {
    pub const MAX_PERMITS: usize = usize::MAX >> 3;
    pub const fn new(n: usize) -> Self {
        Semaphore { permits: Cell::new(n), closed: Cell::new(false) }
    }
    pub const fn const_new(n: usize) -> Self {
        Self::new(n)
    }
    pub fn available_permits(&self) -> usize {
        kenv::step(kenv::SEM);
        self.permits.get()
    }
    pub fn add_permits(&self, n: usize) {
        kenv::step(kenv::SEM);
        assert!(
            n <= Self::MAX_PERMITS && self.permits.get() <= Self::MAX_PERMITS - n,
            "semaphore: number of permits must not overflow MAX_PERMITS"
        );
        self.permits.set(self.permits.get() + n);
    }
    pub fn forget_permits(&self, n: usize) -> usize {
        kenv::step(kenv::SEM);
        let k = n.min(self.permits.get());
        self.permits.set(self.permits.get() - k);
        k
    }
    pub fn close(&self) {
        kenv::step(kenv::SEM);
        self.closed.set(true);
    }
    pub fn is_closed(&self) -> bool {
        kenv::step(kenv::SEM);
        self.closed.get()
    }
    fn try_take(&self, n: u32) -> Result<(), TryAcquireError> {
        kenv::step(kenv::SEM);
        if self.closed.get() {
            Err(TryAcquireError::Closed)
        } else if self.permits.get() >= n as usize {
            self.permits.set(self.permits.get() - n as usize);
            Ok(())
        } else {
            Err(TryAcquireError::NoPermits)
        }
    }
    #[doc(hidden)]
    pub fn poll_take(&self, n: u32, cx: &mut Context<'_>) -> Poll<Result<(), AcquireError>> {
        match self.try_take(n) {
            Ok(()) => Poll::Ready(Ok(())),
            Err(TryAcquireError::Closed) => Poll::Ready(Err(AcquireError(()))),
            Err(TryAcquireError::NoPermits) => {
                kenv::register(cx);
                Poll::Pending
            }
        }
    }
    pub fn try_acquire(&self) -> Result<SemaphorePermit<'_>, TryAcquireError> {
        self.try_acquire_many(1)
    }
    pub fn try_acquire_many(&self, n: u32) -> Result<SemaphorePermit<'_>, TryAcquireError> {
        self.try_take(n).map(|()| SemaphorePermit { sem: self, n })
    }
    pub fn try_acquire_owned(self: Arc<Self>) -> Result<OwnedSemaphorePermit, TryAcquireError> {
        self.try_acquire_many_owned(1)
    }
    pub fn try_acquire_many_owned(self: Arc<Self>, n: u32) -> Result<OwnedSemaphorePermit, TryAcquireError> {
        match self.try_take(n) {
            Ok(()) => Ok(OwnedSemaphorePermit { sem: self, n }),
            Err(e) => Err(e),
        }
    }
    pub async fn acquire(&self) -> Result<SemaphorePermit<'_>, AcquireError> {
        self.acquire_many(1).await
    }
    pub async fn acquire_many(&self, n: u32) -> Result<SemaphorePermit<'_>, AcquireError> {
        poll_fn(|cx| self.poll_take(n, cx)).await?;
        Ok(SemaphorePermit { sem: self, n })
    }
    pub async fn acquire_owned(self: Arc<Self>) -> Result<OwnedSemaphorePermit, AcquireError> {
        self.acquire_many_owned(1).await
    }
    pub async fn acquire_many_owned(self: Arc<Self>, n: u32) -> Result<OwnedSemaphorePermit, AcquireError> {
        poll_fn(|cx| self.poll_take(n, cx)).await?;
        Ok(OwnedSemaphorePermit { sem: self, n })
    }
    #[doc(hidden)]
    pub fn model_permits(&self) -> usize {
        self.permits.get()
    }
}
#[must_use]
#[derive(Debug)]
pub struct SemaphorePermit<'a> {
    sem: &'a Semaphore,
    n: u32,
}
impl SemaphorePermit<'_> {
    pub fn forget(mut self) {
        self.n = 0;
    }
    pub fn num_permits(&self) -> usize {
        self.n as usize
    }
}
impl Drop for SemaphorePermit<'_> {
    fn drop(&mut self) {
        if self.n > 0 {
            self.sem.add_permits(self.n as usize);
        }
    }
}
#[must_use]
#[derive(Debug)]
pub struct OwnedSemaphorePermit {
    sem: Arc<Semaphore>,
    n: u32,
}
impl OwnedSemaphorePermit {
    pub fn forget(mut self) {
        self.n = 0;
    }
    pub fn num_permits(&self) -> usize {
        self.n as usize
    }
    pub fn semaphore(&self) -> &Arc<Semaphore> {
        &self.sem
    }
    #[doc(hidden)]
    pub fn model_new(sem: Arc<Semaphore>, n: u32) -> Self {
        OwnedSemaphorePermit { sem, n }
    }
}
impl Drop for OwnedSemaphorePermit {
    fn drop(&mut self) {
        if self.n > 0 {
            self.sem.add_permits(self.n as usize);
        }
    }
}

// ---------------------------------------------------------------- Notify
#[derive(Default)]
pub struct Notify {
    permit: Cell<bool>,
    gen: Cell<usize>,
}
unsafe impl Send for Notify {}
unsafe impl Sync for Notify {}
impl std::panic::UnwindSafe for Notify {}
impl std::panic::RefUnwindSafe for Notify {}
impl fmt::Debug for Notify {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("Notify")
    }
}
impl Notify {
    pub const fn new() -> Self {
        Notify { permit: Cell::new(false), gen: Cell::new(0) }
    }
    pub const fn const_new() -> Self {
        Self::new()
    }
    pub fn notify_one(&self) {
        kenv::step(kenv::CHAN);
        self.permit.set(true);
    }
    pub fn notify_last(&self) {
        self.notify_one()
    }
    pub fn notify_waiters(&self) {
        kenv::step(kenv::CHAN);
        self.gen.set(self.gen.get() + 1);
    }
    pub fn notified(&self) -> Notified<'_> {
        Notified { n: self, gen: self.gen.get() }
    }
}
#[derive(Debug)]
pub struct Notified<'a> {
    n: &'a Notify,
    gen: usize,
}
impl Notified<'_> {
    pub fn enable(self: Pin<&mut Self>) -> bool {
        if self.n.permit.get() {
            self.n.permit.set(false);
            true
        } else {
            false
        }
    }
}
impl Future for Notified<'_> {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        kenv::step(kenv::CHAN);
        if self.gen != self.n.gen.get() {
            return Poll::Ready(());
        }
        if self.n.permit.get() {
            self.n.permit.set(false);
            return Poll::Ready(());
        }
        kenv::register(cx);
        Poll::Pending
    }
}

// ----------------------------------------------------------------- Mutex
pub struct Mutex<T: ?Sized> {
    locked: Cell<bool>,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
#[derive(Debug)]
pub struct TryLockError(());
impl fmt::Display for TryLockError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("operation would block")
    }
}
impl std::error::Error for TryLockError {}
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex { locked: Cell::new(false), v: UnsafeCell::new(v) }
    }
    pub const fn const_new(v: T) -> Self {
        Self::new(v)
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
        kenv::step(kenv::SEM);
        if self.locked.get() {
            Err(TryLockError(()))
        } else {
            self.locked.set(true);
            Ok(MutexGuard { m: self })
        }
    }
    pub async fn lock(&self) -> MutexGuard<'_, T> {
        poll_fn(|cx| match self.try_lock() {
            Ok(g) => Poll::Ready(g),
            Err(_) => {
                kenv::register(cx);
                Poll::Pending
            }
        })
        .await
    }
    pub fn blocking_lock(&self) -> MutexGuard<'_, T> {
        self.try_lock().expect("mutex: no self-deadlock")
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("Mutex")
    }
}
pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}
unsafe impl<T: ?Sized + Send> Send for MutexGuard<'_, T> {}
impl<T: ?Sized> std::ops::Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.v.get() }
    }
}
impl<T: ?Sized> std::ops::DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.v.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.m.locked.set(false)
    }
}
/// Reader/writer lock (readers are exclusive too: a strengthening that only
/// removes reader/reader overlap).
pub struct RwLock<T: ?Sized> {
    m: Mutex<T>,
}
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        RwLock { m: Mutex::new(v) }
    }
}
impl<T: ?Sized> RwLock<T> {
    pub async fn read(&self) -> MutexGuard<'_, T> {
        self.m.lock().await
    }
    pub async fn write(&self) -> MutexGuard<'_, T> {
        self.m.lock().await
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
pub type RwLockReadGuard<'a, T> = MutexGuard<'a, T>;
pub type RwLockWriteGuard<'a, T> = MutexGuard<'a, T>;

pub struct OnceCell<T> {
    v: UnsafeCell<Option<T>>,
}
unsafe impl<T: Send + Sync> Send for OnceCell<T> {}
unsafe impl<T: Send + Sync> Sync for OnceCell<T> {}
impl<T> OnceCell<T> {
    pub const fn new() -> Self {
        OnceCell { v: UnsafeCell::new(None) }
    }
    pub const fn const_new() -> Self {
        Self::new()
    }
    pub fn get(&self) -> Option<&T> {
        unsafe { &*self.v.get() }.as_ref()
    }
    pub fn set(&self, t: T) -> Result<(), T> {
        if self.get().is_some() {
            return Err(t);
        }
        unsafe { *self.v.get() = Some(t) };
        Ok(())
    }
    pub async fn get_or_init<F: FnOnce() -> Fut, Fut: Future<Output = T>>(&self, f: F) -> &T {
        if self.get().is_none() {
            let v = f().await;
            let _ = self.set(v);
        }
        self.get().unwrap()
    }
    pub async fn get_or_try_init<E, F: FnOnce() -> Fut, Fut: Future<Output = Result<T, E>>>(&self, f: F) -> Result<&T, E> {
        if self.get().is_none() {
            let v = f().await?;
            let _ = self.set(v);
        }
        Ok(self.get().unwrap())
    }
}

// ------------------------------------------------------------------ mpsc
pub mod mpsc {
    use super::*;
    use kenv::slots::Slots;
    struct Chan<T> {
        q: UnsafeCell<Slots<T>>,
        cap: usize,
        tx: Cell<usize>,
        rx_closed: Cell<bool>,
    }
    unsafe impl<T: Send> Send for Chan<T> {}
    unsafe impl<T: Send> Sync for Chan<T> {}
    impl<T> Chan<T> {
        #[allow(clippy::mut_from_ref)]
        fn q(&self) -> &mut Slots<T> {
            unsafe { &mut *self.q.get() }
        }
    }
    pub mod error {
        use std::fmt;
        #[derive(PartialEq, Eq, Clone, Copy)]
        pub struct SendError<T>(pub T);
        impl<T> fmt::Debug for SendError<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.pad("SendError")
            }
        }
        impl<T> fmt::Display for SendError<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("channel closed")
            }
        }
        impl<T> std::error::Error for SendError<T> {}
        #[derive(PartialEq, Eq, Clone, Copy)]
        pub enum TrySendError<T> {
            Full(T),
            Closed(T),
        }
        impl<T> fmt::Debug for TrySendError<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.pad("TrySendError")
            }
        }
        impl<T> fmt::Display for TrySendError<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("no available capacity or closed")
            }
        }
        impl<T> std::error::Error for TrySendError<T> {}
        #[derive(PartialEq, Eq, Clone, Copy, Debug)]
        pub enum TryRecvError {
            Empty,
            Disconnected,
        }
        impl fmt::Display for TryRecvError {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("receiving on an empty or closed channel")
            }
        }
        impl std::error::Error for TryRecvError {}
    }
    use error::*;
    macro_rules! chan { ($S:ident, $R:ident) => {
        pub struct $S<T> { c: Arc<Chan<T>> }
        unsafe impl<T: Send> Send for $S<T> {}
        unsafe impl<T: Send> Sync for $S<T> {}
        impl<T> Clone for $S<T> {
            fn clone(&self) -> Self { self.c.tx.set(self.c.tx.get() + 1); $S { c: self.c.clone() } }
        }
        impl<T> Drop for $S<T> {
            fn drop(&mut self) { self.c.tx.set(self.c.tx.get() - 1); }
        }
        impl<T> fmt::Debug for $S<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.pad(stringify!($S)) }
        }
        impl<T> $S<T> {
            pub fn is_closed(&self) -> bool { self.c.rx_closed.get() }
        }
        pub struct $R<T> { c: Arc<Chan<T>> }
        unsafe impl<T: Send> Send for $R<T> {}
        unsafe impl<T: Send> Sync for $R<T> {}
        impl<T> Drop for $R<T> {
            fn drop(&mut self) { self.c.rx_closed.set(true); }
        }
        impl<T> fmt::Debug for $R<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.pad(stringify!($R)) }
        }
        impl<T> $R<T> {
            pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<T>> {
                kenv::step(kenv::CHAN);
                let q = self.c.q();
                if q.len > 0 { return Poll::Ready(Some(q.remove_at(0))) }
                if self.c.tx.get() == 0 || self.c.rx_closed.get() { return Poll::Ready(None) }
                kenv::register(cx);
                Poll::Pending
            }
            pub async fn recv(&mut self) -> Option<T> { poll_fn(|cx| self.poll_recv(cx)).await }
            pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
                kenv::step(kenv::CHAN);
                let q = self.c.q();
                if q.len > 0 { return Ok(q.remove_at(0)) }
                if self.c.tx.get() == 0 { Err(TryRecvError::Disconnected) } else { Err(TryRecvError::Empty) }
            }
            pub fn close(&mut self) { self.c.rx_closed.set(true) }
        }
    } }
    chan!(Sender, Receiver);
    chan!(UnboundedSender, UnboundedReceiver);
    fn mk<T>(cap: usize) -> Arc<Chan<T>> {
        Arc::new(Chan { q: UnsafeCell::new(Slots::new()), cap, tx: Cell::new(1), rx_closed: Cell::new(false) })
    }
    pub fn channel<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
        assert!(cap > 0, "mpsc bounded channel requires buffer > 0");
        let c = mk(cap);
        (Sender { c: c.clone() }, Receiver { c })
    }
    pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
        let c = mk(usize::MAX);
        (UnboundedSender { c: c.clone() }, UnboundedReceiver { c })
    }
    impl<T> Sender<T> {
        pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
            kenv::step(kenv::CHAN);
            if self.c.rx_closed.get() {
                Err(TrySendError::Closed(t))
            } else if self.c.q().len >= self.c.cap {
                Err(TrySendError::Full(t))
            } else {
                self.c.q().push(t);
                Ok(())
            }
        }
        pub async fn send(&self, t: T) -> Result<(), SendError<T>> {
            let mut t = Some(t);
            poll_fn(|cx| match self.try_send(t.take().unwrap()) {
                Ok(()) => Poll::Ready(Ok(())),
                Err(TrySendError::Closed(v)) => Poll::Ready(Err(SendError(v))),
                Err(TrySendError::Full(v)) => {
                    t = Some(v);
                    kenv::register(cx);
                    Poll::Pending
                }
            })
            .await
        }
    }
    impl<T> UnboundedSender<T> {
        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
            kenv::step(kenv::CHAN);
            if self.c.rx_closed.get() {
                Err(SendError(t))
            } else {
                self.c.q().push(t);
                Ok(())
            }
        }
    }
}

// --------------------------------------------------------------- oneshot
pub mod oneshot {
    use super::*;
    struct Chan<T> {
        v: UnsafeCell<Option<T>>,
        tx: Cell<bool>,
        rx: Cell<bool>,
    }
    unsafe impl<T: Send> Send for Chan<T> {}
    unsafe impl<T: Send> Sync for Chan<T> {}
    pub struct Sender<T> {
        c: Arc<Chan<T>>,
    }
    pub struct Receiver<T> {
        c: Arc<Chan<T>>,
    }
    unsafe impl<T: Send> Send for Sender<T> {}
    unsafe impl<T: Send> Sync for Sender<T> {}
    unsafe impl<T: Send> Send for Receiver<T> {}
    unsafe impl<T: Send> Sync for Receiver<T> {}
    pub mod error {
        #[derive(Debug, PartialEq, Eq, Clone)]
        pub struct RecvError(pub(crate) ());
        impl std::fmt::Display for RecvError {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("channel closed")
            }
        }
        impl std::error::Error for RecvError {}
    }
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let c = Arc::new(Chan { v: UnsafeCell::new(None), tx: Cell::new(true), rx: Cell::new(true) });
        (Sender { c: c.clone() }, Receiver { c })
    }
    impl<T> Sender<T> {
        pub fn send(self, t: T) -> Result<(), T> {
            kenv::step(kenv::CHAN);
            if !self.c.rx.get() {
                return Err(t);
            }
            unsafe { *self.c.v.get() = Some(t) };
            Ok(())
        }
        pub fn is_closed(&self) -> bool {
            !self.c.rx.get()
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            self.c.tx.set(false)
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            self.c.rx.set(false)
        }
    }
    impl<T> Future for Receiver<T> {
        type Output = Result<T, error::RecvError>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            kenv::step(kenv::CHAN);
            if let Some(v) = unsafe { &mut *self.c.v.get() }.take() {
                return Poll::Ready(Ok(v));
            }
            if !self.c.tx.get() {
                return Poll::Ready(Err(error::RecvError(())));
            }
            kenv::register(cx);
            Poll::Pending
        }
    }
}

// ----------------------------------------------------------------- watch
pub mod watch {
    use super::*;
    struct Chan<T> {
        v: UnsafeCell<T>,
        ver: Cell<usize>,
        tx: Cell<usize>,
        rx: Cell<usize>,
    }
    unsafe impl<T: Send> Send for Chan<T> {}
    unsafe impl<T: Send> Sync for Chan<T> {}
    pub struct Sender<T> {
        c: Arc<Chan<T>>,
    }
    pub struct Receiver<T> {
        c: Arc<Chan<T>>,
        seen: usize,
    }
    unsafe impl<T: Send> Send for Sender<T> {}
    unsafe impl<T: Send> Sync for Sender<T> {}
    unsafe impl<T: Send> Send for Receiver<T> {}
    unsafe impl<T: Send> Sync for Receiver<T> {}
    pub mod error {
        use std::fmt;
        pub struct SendError<T>(pub T);
        impl<T> fmt::Debug for SendError<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.pad("SendError")
            }
        }
        impl<T> fmt::Display for SendError<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("channel closed")
            }
        }
        impl<T> std::error::Error for SendError<T> {}
        #[derive(Debug, Clone)]
        pub struct RecvError(pub(crate) ());
        impl fmt::Display for RecvError {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("channel closed")
            }
        }
        impl std::error::Error for RecvError {}
    }
    pub struct Ref<'a, T> {
        v: &'a T,
    }
    impl<T> std::ops::Deref for Ref<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.v
        }
    }
    pub fn channel<T>(v: T) -> (Sender<T>, Receiver<T>) {
        let c = Arc::new(Chan { v: UnsafeCell::new(v), ver: Cell::new(0), tx: Cell::new(1), rx: Cell::new(1) });
        (Sender { c: c.clone() }, Receiver { c, seen: 0 })
    }
    impl<T> Sender<T> {
        pub fn send(&self, t: T) -> Result<(), error::SendError<T>> {
            kenv::step(kenv::CHAN);
            if self.c.rx.get() == 0 {
                return Err(error::SendError(t));
            }
            self.send_replace(t);
            Ok(())
        }
        pub fn send_replace(&self, t: T) -> T {
            let o = std::mem::replace(unsafe { &mut *self.c.v.get() }, t);
            self.c.ver.set(self.c.ver.get() + 1);
            o
        }
        pub fn send_modify(&self, f: impl FnOnce(&mut T)) {
            f(unsafe { &mut *self.c.v.get() });
            self.c.ver.set(self.c.ver.get() + 1);
        }
        pub fn borrow(&self) -> Ref<'_, T> {
            Ref { v: unsafe { &*self.c.v.get() } }
        }
        pub fn subscribe(&self) -> Receiver<T> {
            self.c.rx.set(self.c.rx.get() + 1);
            Receiver { c: self.c.clone(), seen: self.c.ver.get() }
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            self.c.tx.set(self.c.tx.get() - 1)
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            self.c.rx.set(self.c.rx.get() - 1)
        }
    }
    impl<T> Clone for Receiver<T> {
        fn clone(&self) -> Self {
            self.c.rx.set(self.c.rx.get() + 1);
            Receiver { c: self.c.clone(), seen: self.seen }
        }
    }
    impl<T> Receiver<T> {
        pub async fn changed(&mut self) -> Result<(), error::RecvError> {
            poll_fn(|cx| {
                kenv::step(kenv::CHAN);
                if self.seen != self.c.ver.get() {
                    self.seen = self.c.ver.get();
                    return Poll::Ready(Ok(()));
                }
                if self.c.tx.get() == 0 {
                    return Poll::Ready(Err(error::RecvError(())));
                }
                kenv::register(cx);
                Poll::Pending
            })
            .await
        }
        pub fn has_changed(&self) -> Result<bool, error::RecvError> {
            Ok(self.seen != self.c.ver.get())
        }
        pub fn borrow(&self) -> Ref<'_, T> {
            Ref { v: unsafe { &*self.c.v.get() } }
        }
        pub fn borrow_and_update(&mut self) -> Ref<'_, T> {
            self.seen = self.c.ver.get();
            Ref { v: unsafe { &*self.c.v.get() } }
        }
    }
}
