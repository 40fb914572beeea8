//! Contracts of `futures::channel::{mpsc, oneshot}`.
pub mod mpsc;
pub mod oneshot;
