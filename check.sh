#!/bin/bash
# Builds the harness against /repo's working tree and runs one check.
# usage: check.sh <property> [--tier quick|thorough] [--only CASE] [-v]
here=$(cd "$(dirname "$0")" && pwd)
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset CARGO_TARGET_DIR CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG RUSTFLAGS
# a change of the sources must be seen whatever their modification times say
src="$(cd /repo && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)"
if [ "$(cat "$here/harness/target/.src" 2>/dev/null)" != "$src" ]; then
    cargo clean --offline --manifest-path "$here/harness/Cargo.toml" -p little_exif >/dev/null 2>&1
fi
log=$(mktemp /tmp/lxbuild.XXXXXX)
if ! cargo build --offline --manifest-path "$here/harness/Cargo.toml" >"$log" 2>&1; then
    grep -E '^(error|warning: unused)' -A6 "$log" | head -60
    rm -f "$log"
    echo "BUILD-ERROR: the harness does not build against /repo"
    exit 5
fi
rm -f "$log"
echo "$src" >"$here/harness/target/.src"
exec "$here/harness/target/debug/lx" check "$@" --verif "$here"
