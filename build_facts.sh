#!/bin/bash
# Refresh the facts of /repo's current working tree into $WORK/facts.
set -u
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
WORK="${VERIF_WORK:-$HERE/work}"
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= RUSTFLAGS=
export CARGO_PROFILE_DEV_DEBUG=0
export CARGO_TARGET_DIR="$WORK/target"
export VERIF_FACTS="$WORK/facts"
export LD_LIBRARY_PATH="$(rustc --print sysroot)/lib"
export RUSTC_WORKSPACE_WRAPPER="$HERE/driver/target/release/factdriver"
mkdir -p "$VERIF_FACTS"
cd "$REPO" || exit 3
cargo check --workspace --offline -Zchecksum-freshness "$@"
