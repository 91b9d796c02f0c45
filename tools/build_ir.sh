#!/bin/bash
# build_ir.sh CRATE_DIR TARGET_DIR OUT.ll FEATURES ENTRY... : LLVM IR of the harness crate linked with xecs from /repo
set -e
CRATE=$1; TGT=$2; OUT=$3; FEAT=$4; shift 4
export RUSTUP_TOOLCHAIN=stable
cd "$CRATE"
rm -f "$TGT"/release/deps/*.ll
mkdir -p "$TGT"
CARGO_TARGET_DIR=$TGT cargo rustc --offline --release --features sym,"$FEAT" -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp >"$TGT.log" 2>&1 || true
LL=$(ls "$TGT"/release/deps/*.ll 2>/dev/null | head -1)
if [ -z "$LL" ]; then cat "$TGT.log" >&2; exit 3; fi
API=$(echo "$@" | tr ' ' ',')
OPT=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin/opt
"$OPT" -S -passes='internalize,globaldce' -internalize-public-api-list="$API" "$LL" -o "$OUT"
