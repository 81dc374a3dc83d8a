#!/bin/bash
# Usage: dump.sh OUTDIR [REPO]  -- type-checks REPO's workspace with the MIR dumper; OUTDIR gets *.json
set -e
OUT=$1; REPO=${2:-/repo}; HERE=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$OUT"
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
SYS=$(rustc --print sysroot)
export LD_LIBRARY_PATH="$SYS/lib" TOFAS_DUMP_DIR="$OUT" RUSTC_WORKSPACE_WRAPPER="$HERE/build/mirdump"
CHECKS=on; [ "$TOFAS_PROFILE" = release ] && CHECKS=off
export RUSTFLAGS="-Zmir-opt-level=0 -Coverflow-checks=$CHECKS -Cdebug-assertions=$CHECKS -Zalways-encode-mir -Wunsafe_code"
cd "$REPO"
exec cargo check --offline --workspace --lib --examples --target-dir "$OUT/target" --message-format=json
