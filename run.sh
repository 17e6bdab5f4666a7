#!/bin/bash
# run.sh ID: build the harness against /repo's working tree and run one check.
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
ID="$1"
export VERIF_ROOT="$ROOT"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
export CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg verif_hooks" CARGO_INCREMENTAL=0
LOG="$ROOT/harness/target/build-$ID.log"
mkdir -p "$ROOT/harness/target" "$ROOT/evidence" "$ROOT/replays"
# a patch may restore old time stamps: make cargo look at the crate again
touch -c /repo/src/lib.rs /repo/src/main.rs
if ! cargo build --offline --release --manifest-path "$ROOT/harness/Cargo.toml" --target-dir "$ROOT/harness/target" >"$LOG" 2>&1; then
    cat "$LOG"
    echo "run.sh: the harness does not build"
    exit 2
fi
# C27 runs the command-line program itself
if [ "$ID" = C27 ]; then
    if ! RUSTFLAGS= cargo build --offline --locked --manifest-path /repo/Cargo.toml --bin ruruby-parse --target-dir "$ROOT/harness/target/cli" >"$LOG" 2>&1; then
        cat "$LOG"
        echo "run.sh: the command-line program does not build"
        exit 2
    fi
fi
# the command-line program parses nested texts on its main stack
ulimit -s 1000000 2>/dev/null || true
ulimit -v 25000000
exec "$ROOT/harness/target/release/vh" run "$ID"
