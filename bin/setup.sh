#!/bin/bash
# Builds the harness crates and their dependencies, offline, under /verif/target.
cd "$(dirname "$0")/.." || exit 1
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTC_WRAPPER
(cd native && RUSTFLAGS="--cfg verif --cfg tokio_unstable" cargo build --offline --bins --target-dir ../target/native) || exit 1
# any harness will do: this compiles the dependencies for the verifier
(cd proofs && RUSTFLAGS="--cfg verif" timeout 1200 cargo kani -Z async-lib -Z stubbing -Z restrict-vtable -Z unstable-options \
    --features acker --only-codegen --target-dir ../target/kani) || exit 1
