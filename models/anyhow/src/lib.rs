//! Executable contract of `anyhow` 1.x used when the real paladin sources are
//! put before the verifier.  Same observable behaviour for the API surface
//! below (construction, context, downcasting, Display/Debug/chain); the hand
//! written vtables of the real crate are replaced by a boxed trait object.
//! An `Error` never runs its payload's destructor (leaks): nothing observable
//! depends on it and it keeps dyn drop glue out of the proofs.
use std::any::Any;
use std::error::Error as StdError;
use std::fmt::{self, Debug, Display};
use std::mem::ManuallyDrop;

pub struct Error {
    inner: ManuallyDrop<Box<dyn Payload>>,
}

trait Payload: Send + Sync + 'static {
    fn display(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result;
    fn debug(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result;
    fn any(&self) -> &dyn Any;
    fn any_mut(&mut self) -> &mut dyn Any;
    fn into_any(self: Box<Self>) -> Box<dyn Any>;
    fn next(&self) -> Option<&Error>;
    fn std(&self) -> Option<&(dyn StdError + 'static)>;
}

struct Std<E>(E);
struct Msg<M>(M);
struct Ctx<C> {
    context: C,
    error: Error,
}

impl<E: StdError + Send + Sync + 'static> Payload for Std<E> {
    fn display(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Display::fmt(&self.0, f)
    }
    fn debug(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Debug::fmt(&self.0, f)
    }
    fn any(&self) -> &dyn Any {
        &self.0
    }
    fn any_mut(&mut self) -> &mut dyn Any {
        &mut self.0
    }
    fn into_any(self: Box<Self>) -> Box<dyn Any> {
        Box::new(self.0)
    }
    fn next(&self) -> Option<&Error> {
        None
    }
    fn std(&self) -> Option<&(dyn StdError + 'static)> {
        Some(&self.0)
    }
}

impl<M: Display + Debug + Send + Sync + 'static> Payload for Msg<M> {
    fn display(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Display::fmt(&self.0, f)
    }
    fn debug(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Debug::fmt(&self.0, f)
    }
    fn any(&self) -> &dyn Any {
        &self.0
    }
    fn any_mut(&mut self) -> &mut dyn Any {
        &mut self.0
    }
    fn into_any(self: Box<Self>) -> Box<dyn Any> {
        Box::new(self.0)
    }
    fn next(&self) -> Option<&Error> {
        None
    }
    fn std(&self) -> Option<&(dyn StdError + 'static)> {
        None
    }
}

impl<C: Display + Send + Sync + 'static> Payload for Ctx<C> {
    fn display(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Display::fmt(&self.context, f)
    }
    fn debug(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Display::fmt(&self.context, f)
    }
    fn any(&self) -> &dyn Any {
        &self.context
    }
    fn any_mut(&mut self) -> &mut dyn Any {
        &mut self.context
    }
    fn into_any(self: Box<Self>) -> Box<dyn Any> {
        Box::new(self.context)
    }
    fn next(&self) -> Option<&Error> {
        Some(&self.error)
    }
    fn std(&self) -> Option<&(dyn StdError + 'static)> {
        None
    }
}

impl Error {
    pub fn new<E: StdError + Send + Sync + 'static>(error: E) -> Self {
        Self { inner: ManuallyDrop::new(Box::new(Std(error))) }
    }
    pub fn msg<M: Display + Debug + Send + Sync + 'static>(message: M) -> Self {
        Self { inner: ManuallyDrop::new(Box::new(Msg(message))) }
    }
    pub fn context<C: Display + Send + Sync + 'static>(self, context: C) -> Self {
        Self { inner: ManuallyDrop::new(Box::new(Ctx { context, error: self })) }
    }
    pub fn downcast_ref<E: Display + Debug + Send + Sync + 'static>(&self) -> Option<&E> {
        match self.inner.any().downcast_ref::<E>() {
            Some(e) => Some(e),
            None => match self.inner.next() {
                Some(n) => n.inner.any().downcast_ref::<E>(),
                None => None,
            },
        }
    }
    pub fn downcast_mut<E: Display + Debug + Send + Sync + 'static>(&mut self) -> Option<&mut E> {
        self.inner.any_mut().downcast_mut::<E>()
    }
    pub fn downcast<E: Display + Debug + Send + Sync + 'static>(self) -> Result<E, Self> {
        if self.inner.any().is::<E>() {
            let b = ManuallyDrop::into_inner(self.inner).into_any();
            match b.downcast::<E>() {
                Result::Ok(e) => Result::Ok(*e),
                Err(_) => unreachable!(),
            }
        } else {
            Err(self)
        }
    }
    pub fn is<E: Display + Debug + Send + Sync + 'static>(&self) -> bool {
        self.downcast_ref::<E>().is_some()
    }
    pub fn root_cause(&self) -> &dyn Display {
        match self.inner.next() {
            Some(n) => n,
            None => self,
        }
    }
}

impl Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.display(f)?;
        if f.alternate() {
            if let Some(n) = self.inner.next() {
                f.write_str(": ")?;
                n.inner.display(f)?;
            }
        }
        Result::Ok(())
    }
}
impl Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.debug(f)
    }
}

impl<E: StdError + Send + Sync + 'static> From<E> for Error {
    fn from(e: E) -> Self {
        Self::new(e)
    }
}

impl AsRef<dyn StdError + Send + Sync> for Error {
    fn as_ref(&self) -> &(dyn StdError + Send + Sync + 'static) {
        unimplemented!("anyhow contract: AsRef<dyn Error>")
    }
}
impl AsRef<dyn StdError> for Error {
    fn as_ref(&self) -> &(dyn StdError + 'static) {
        self.inner.std().expect("anyhow contract: AsRef<dyn Error>")
    }
}
impl std::ops::Deref for Error {
    type Target = dyn StdError + Send + Sync + 'static;
    fn deref(&self) -> &Self::Target {
        unimplemented!("anyhow contract: Deref")
    }
}

pub type Result<T, E = Error> = core::result::Result<T, E>;

#[allow(non_snake_case)]
pub fn Ok<T>(t: T) -> Result<T> {
    Result::Ok(t)
}

pub trait Context<T, E>: Sized {
    fn context<C: Display + Send + Sync + 'static>(self, context: C) -> Result<T, Error>;
    fn with_context<C: Display + Send + Sync + 'static, F: FnOnce() -> C>(self, f: F) -> Result<T, Error>;
}
pub trait IntoAnyhow {
    fn into_anyhow(self) -> Error;
}
impl<E: StdError + Send + Sync + 'static> IntoAnyhow for E {
    fn into_anyhow(self) -> Error {
        Error::new(self)
    }
}
impl IntoAnyhow for Error {
    fn into_anyhow(self) -> Error {
        self
    }
}
impl<T, E: IntoAnyhow> Context<T, E> for Result<T, E> {
    fn context<C: Display + Send + Sync + 'static>(self, context: C) -> Result<T, Error> {
        match self {
            Result::Ok(t) => Result::Ok(t),
            Err(e) => Err(e.into_anyhow().context(context)),
        }
    }
    fn with_context<C: Display + Send + Sync + 'static, F: FnOnce() -> C>(self, f: F) -> Result<T, Error> {
        match self {
            Result::Ok(t) => Result::Ok(t),
            Err(e) => Err(e.into_anyhow().context(f())),
        }
    }
}
struct NoneErr<C>(C);
impl<C: Display> Display for NoneErr<C> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<C: Display> Debug for NoneErr<C> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Display::fmt(&self.0, f)
    }
}
impl<T> Context<T, std::convert::Infallible> for Option<T> {
    fn context<C: Display + Send + Sync + 'static>(self, context: C) -> Result<T, Error> {
        match self {
            Some(t) => Result::Ok(t),
            None => Err(Error::msg(NoneErr(context))),
        }
    }
    fn with_context<C: Display + Send + Sync + 'static, F: FnOnce() -> C>(self, f: F) -> Result<T, Error> {
        match self {
            Some(t) => Result::Ok(t),
            None => Err(Error::msg(NoneErr(f()))),
        }
    }
}

#[doc(hidden)]
pub mod __private {
    pub use super::Error;
    pub use core::result::Result::Err;
    pub use std::format_args;
    use std::fmt::{Debug, Display};
    /// The text of a formatted message is not modelled.
    #[cfg(kani)]
    pub fn format(_: std::fmt::Arguments<'_>) -> Error {
        Error::msg("formatted message")
    }
    #[cfg(not(kani))]
    pub fn format(a: std::fmt::Arguments<'_>) -> Error {
        match a.as_str() {
            Some(s) => Error::msg(s),
            None => Error::msg(std::fmt::format(a)),
        }
    }
    // autoref specialisation, as in anyhow: std errors keep their type,
    // anything displayable becomes a message.
    pub struct Adhoc;
    pub struct Trait;
    pub trait AdhocKind: Sized {
        fn anyhow_kind(&self) -> Adhoc {
            Adhoc
        }
    }
    impl<T: ?Sized + Display + Debug + Send + Sync + 'static> AdhocKind for &T {}
    impl Adhoc {
        pub fn new<M: Display + Debug + Send + Sync + 'static>(self, m: M) -> Error {
            Error::msg(m)
        }
    }
    pub trait TraitKind: Sized {
        fn anyhow_kind(&self) -> Trait {
            Trait
        }
    }
    impl<E: Into<Error>> TraitKind for E {}
    impl Trait {
        pub fn new<E: Into<Error>>(self, e: E) -> Error {
            e.into()
        }
    }
}

#[macro_export]
macro_rules! anyhow {
    ($msg:literal $(,)?) => { $crate::__private::format($crate::__private::format_args!($msg)) };
    ($err:expr $(,)?) => {{
        #[allow(unused_imports)]
        use $crate::__private::{AdhocKind as _, TraitKind as _};
        match $err {
            error => (&error).anyhow_kind().new(error),
        }
    }};
    ($fmt:expr, $($arg:tt)*) => { $crate::__private::format($crate::__private::format_args!($fmt, $($arg)*)) };
}
#[macro_export]
macro_rules! bail {
    ($($t:tt)*) => { return $crate::__private::Err($crate::anyhow!($($t)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr $(,)?) => { if !$c { return $crate::__private::Err($crate::anyhow!(concat!("Condition failed: `", stringify!($c), "`"))) } };
    ($c:expr, $($t:tt)*) => { if !$c { return $crate::__private::Err($crate::anyhow!($($t)*)) } };
}

/// Support for the `async-trait` contract (see models/async-trait).
#[doc(hidden)]
pub mod __model {
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll, Waker};

    /// The future an `#[async_trait]` method returns: the body has already run
    /// to completion; awaiting it yields the result.
    #[must_use]
    pub struct Eager<T> {
        value: Option<T>,
    }
    impl<T> Unpin for Eager<T> {}
    impl<T> Future for Eager<T> {
        type Output = T;
        fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<T> {
            Poll::Ready(self.value.take().expect("future polled after completion"))
        }
    }
    impl<T> Drop for Eager<T> {
        fn drop(&mut self) {
            // The model ran the body when the future was created.  That is only
            // faithful if the future is awaited.
            assert!(unsafe { LENIENT } || self.value.is_none(), "async call is awaited");
        }
    }
    static mut LENIENT: bool = false;
    /// From now on a body may also have run although its future is dropped
    /// unpolled (an over-approximation of what happens).
    pub fn lenient() {
        unsafe { LENIENT = true }
    }
    pub fn eager<F: Future>(f: F) -> Eager<F::Output> {
        Eager { value: Some(block_on(f)) }
    }
    pub fn block_on<F: Future>(f: F) -> F::Output {
        let mut f = std::mem::ManuallyDrop::new(f);
        let mut cx = Context::from_waker(Waker::noop());
        let mut i = 0;
        loop {
            if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut *f) }.poll(&mut cx) {
                unsafe { std::mem::ManuallyDrop::drop(&mut f) };
                return v;
            }
            suspended(i);
            i += 1;
        }
    }
    /// Called when an eagerly run body suspends for the `i`-th time.  By default
    /// that is outside the model; proof harnesses of functions that do suspend
    /// replace this by the behaviour of their environment.
    #[inline(never)]
    pub fn suspended(_i: usize) {
        panic!("model: body suspended")
    }
}
