//! Contract of `tracing` with no subscriber installed: logging has no effect
//! and its arguments are not evaluated.
pub use tracing_attributes::instrument;
#[derive(Clone, Debug)]
pub struct Span;
impl Span {
    pub fn none() -> Self {
        Span
    }
    pub fn current() -> Self {
        Span
    }
    pub fn enter(&self) -> Entered<'_> {
        Entered(self)
    }
    pub fn entered(self) -> Span {
        self
    }
    pub fn in_scope<F: FnOnce() -> T, T>(&self, f: F) -> T {
        f()
    }
}
pub struct Entered<'a>(#[allow(dead_code)] &'a Span);
pub struct Level;
impl Level {
    pub const TRACE: Level = Level;
    pub const DEBUG: Level = Level;
    pub const INFO: Level = Level;
    pub const WARN: Level = Level;
    pub const ERROR: Level = Level;
}
pub mod instrument {
    pub type Instrumented<T> = T;
    pub trait Instrument: Sized {
        fn instrument(self, _span: super::Span) -> Self {
            self
        }
        fn in_current_span(self) -> Self {
            self
        }
    }
    impl<T: Sized> Instrument for T {}
}
pub use instrument::Instrument;
#[macro_export]
macro_rules! trace { ($($t:tt)*) => {{}}; }
#[macro_export]
macro_rules! debug { ($($t:tt)*) => {{}}; }
#[macro_export]
macro_rules! info { ($($t:tt)*) => {{}}; }
#[macro_export]
macro_rules! warn { ($($t:tt)*) => {{}}; }
#[macro_export]
macro_rules! error { ($($t:tt)*) => {{}}; }
#[macro_export]
macro_rules! event { ($($t:tt)*) => {{}}; }
#[macro_export]
macro_rules! span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export]
macro_rules! trace_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export]
macro_rules! debug_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export]
macro_rules! info_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export]
macro_rules! warn_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export]
macro_rules! error_span { ($($t:tt)*) => { $crate::Span }; }
