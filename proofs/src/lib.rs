//! Proof harnesses: /verif/harness, compiled against /repo/paladin-core with
//! the dependency contracts of /verif/models.
#![allow(dead_code, unused_imports, static_mut_refs)]
#![cfg(kani)]
#[macro_use]
mod nd;
#[macro_use]
#[path = "../../harness/common.rs"]
mod common;
macro_rules! modules {
    ($($f:literal $n:ident $p:literal),* $(,)?) => {
        $(#[cfg(feature = $f)] #[path = $p] mod $n;)*
    };
}
modules! {
    "coord" coord "../../harness/coord.rs",
    "acker" acker "../../harness/acker.rs",
    "lease" lease "../../harness/lease.rs",
    "publish" publish "../../harness/publish.rs",
    "retry" retry "../../harness/retry.rs",
    "errors" errors "../../harness/errors.rs",
    "contig" contig "../../harness/contig.rs",
    "operation" operation "../../harness/operation.rs",
    "task" task "../../harness/task.rs",
    "serializer" serializer "../../harness/serializer.rs",
    "stream" stream "../../harness/stream.rs",
    "queues" queues "../../harness/queues.rs",
    "channel" channel "../../harness/channel.rs",
    "conn" conn "../../harness/conn.rs",
    "lapin_" lapin_ "../../harness/lapin_.rs",
    "rt" rt "../../harness/rt.rs",
}
