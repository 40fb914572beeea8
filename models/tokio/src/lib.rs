//! Contracts of the tokio primitives paladin uses, in executable form.
//!
//! * sync primitives: sequential semantics at each linearisation point,
//!   `kenv::step` before every access, `kenv::register` whenever `Pending` is
//!   returned (tokio then guarantees a wake-up once the condition holds);
//! * `try_join!`: polls its branches in order; `select!`/`join!`: tokio's own
//!   macros, the random start branch
//!   is an arbitrary one;
//! * `spawn`: the task is polled once at once and then on `task::run_spawned`;
//! * time is not modelled: a sleep may elapse at any poll.
pub mod macros {
    #[macro_use]
    mod join;
    #[macro_use]
    mod pin;
    #[macro_use]
    mod select;
    #[macro_use]
    mod try_join;
    #[doc(hidden)]
    pub mod support {
        pub use crate::branch::Branch;
        pub use crate::maybe_done::maybe_done;
        pub use std::future::poll_fn;
        pub use std::future::{Future, IntoFuture};
        pub use std::pin::Pin;
        pub use std::task::Poll;
        pub fn thread_rng_n(n: u32) -> u32 {
            kenv::any_below(n)
        }
    }
}
#[doc(hidden)]
pub use tokio_macros::{select_priv_clean_pattern, select_priv_declare_output_enum};
pub use tokio_macros::{main_rt as main, test_rt as test};
mod branch;
mod maybe_done;
pub mod sync;
pub mod task;
pub mod time;
pub use task::spawn;
pub mod runtime {
    pub struct Runtime;
    impl Runtime {
        pub fn new() -> std::io::Result<Self> {
            Ok(Runtime)
        }
        pub fn block_on<F: std::future::Future>(&self, f: F) -> F::Output {
            crate::task::block_on(f)
        }
    }
    #[derive(Clone, Debug)]
    pub struct Handle;
    impl Handle {
        pub fn current() -> Self {
            Handle
        }
        pub fn try_current() -> Result<Self, ()> {
            Ok(Handle)
        }
        pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output>
        where
            F: std::future::Future + Send + 'static,
            F::Output: Send + 'static,
        {
            crate::task::spawn(f)
        }
    }
}
