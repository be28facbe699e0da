#!/bin/bash
# Builds the harness once (offline) so that the checks only rebuild what changed.
here=$(cd "$(dirname "$0")" && pwd)
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_TARGET_DIR CARGO_INCREMENTAL RUSTFLAGS
exec cargo build --offline --manifest-path "$here/harness/Cargo.toml"
