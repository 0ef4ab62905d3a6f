#!/bin/bash
# Build the fact driver and the facts of the current tree (offline).
set -e
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER RUSTFLAGS RUSTUP_TOOLCHAIN CARGO_TARGET_DIR
(cd "$HERE/driver" && cargo +nightly build --release --offline)
"$HERE/build_facts.sh"
