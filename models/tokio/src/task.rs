use std::cell::UnsafeCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = std::mem::ManuallyDrop::new(f);
    let mut cx = Context::from_waker(Waker::noop());
    loop {
        if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut *f) }.poll(&mut cx) {
            unsafe { std::mem::ManuallyDrop::drop(&mut f) };
            return v;
        }
    }
}

pub struct JoinError {
    panicked: bool,
}
impl JoinError {
    pub fn is_panic(&self) -> bool {
        self.panicked
    }
    pub fn is_cancelled(&self) -> bool {
        !self.panicked
    }
    #[doc(hidden)]
    pub fn model(panicked: bool) -> Self {
        JoinError { panicked }
    }
}
impl std::fmt::Debug for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("JoinError")
    }
}
impl std::fmt::Display for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(if self.panicked { "task panicked" } else { "task was cancelled" })
    }
}
impl std::error::Error for JoinError {}

struct Cell<T> {
    out: UnsafeCell<Option<Result<T, JoinError>>>,
    done: UnsafeCell<bool>,
    aborted: UnsafeCell<bool>,
}
pub struct JoinHandle<T> {
    c: Arc<Cell<T>>,
}
unsafe impl<T: Send> Send for JoinHandle<T> {}
unsafe impl<T: Send> Sync for JoinHandle<T> {}
impl<T> Unpin for JoinHandle<T> {}
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        unsafe {
            *self.c.aborted.get() = true;
            if !*self.c.done.get() {
                *self.c.done.get() = true;
                *self.c.out.get() = Some(Err(JoinError { panicked: false }));
            }
        }
    }
    pub fn is_finished(&self) -> bool {
        unsafe { *self.c.done.get() }
    }
    pub fn abort_handle(&self) -> AbortHandle {
        AbortHandle
    }
}
pub struct AbortHandle;
impl AbortHandle {
    pub fn abort(&self) {}
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        run_spawned();
        match unsafe { &mut *self.c.out.get() }.take() {
            Some(r) => Poll::Ready(r),
            None => {
                kenv::register(cx);
                Poll::Pending
            }
        }
    }
}

struct Task<F: Future> {
    f: F,
    c: Arc<Cell<F::Output>>,
}
trait Poller {
    fn go(&mut self) -> bool;
}
impl<F: Future> Poller for Task<F> {
    fn go(&mut self) -> bool {
        unsafe {
            if *self.c.aborted.get() {
                return true;
            }
            let mut cx = Context::from_waker(Waker::noop());
            match Pin::new_unchecked(&mut self.f).poll(&mut cx) {
                Poll::Ready(v) => {
                    *self.c.out.get() = Some(Ok(v));
                    *self.c.done.get() = true;
                    true
                }
                Poll::Pending => false,
            }
        }
    }
}
const MAX_TASKS: usize = 4;
struct Tasks {
    t: [Option<Box<dyn Poller>>; MAX_TASKS],
    running: bool,
}
static mut TASKS: Tasks = Tasks { t: [const { None }; MAX_TASKS], running: false };
pub static mut SPAWNED: usize = 0;

/// Poll every spawned, unfinished task once.
#[allow(static_mut_refs)]
pub fn run_spawned() {
    unsafe {
        if SPAWNED == 0 || TASKS.running {
            return;
        }
        TASKS.running = true;
        let mut i = 0;
        while i < MAX_TASKS {
            if let Some(t) = &mut TASKS.t[i] {
                if t.go() {
                    std::mem::forget(TASKS.t[i].take());
                }
            }
            i += 1;
        }
        TASKS.running = false;
    }
}

#[allow(static_mut_refs)]
pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let c = Arc::new(Cell { out: UnsafeCell::new(None), done: UnsafeCell::new(false), aborted: UnsafeCell::new(false) });
    let mut t = Box::new(Task { f, c: c.clone() });
    if t.go() {
        std::mem::forget(t);
    } else {
        unsafe {
            if SPAWNED >= MAX_TASKS {
                kenv::capacity_exceeded()
            }
            TASKS.t[SPAWNED] = Some(t);
            SPAWNED += 1;
        }
    }
    JoinHandle { c }
}
pub fn spawn_local<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    spawn(f)
}
/// The closure runs to completion; a panic inside would surface as a
/// `JoinError` (the verifier reports it at the panic itself instead).
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    JoinHandle {
        c: Arc::new(Cell { out: UnsafeCell::new(Some(Ok(f()))), done: UnsafeCell::new(true), aborted: UnsafeCell::new(false) }),
    }
}
pub fn block_in_place<F: FnOnce() -> R, R>(f: F) -> R {
    f()
}
pub async fn yield_now() {}
