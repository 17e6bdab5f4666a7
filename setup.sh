#!/bin/bash
# Builds the harness once (every check builds it again from /repo's working tree).
set -eu
ROOT="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg verif_hooks" CARGO_INCREMENTAL=0
cargo build --offline --release --manifest-path "$ROOT/harness/Cargo.toml" --target-dir "$ROOT/harness/target"
RUSTFLAGS= cargo build --offline --locked --manifest-path /repo/Cargo.toml --bin ruruby-parse --target-dir "$ROOT/harness/target/cli"
