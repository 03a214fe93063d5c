#!/bin/bash
# Builds the symbolic executor with plain rustc (no crates, no network).
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
OUT=${1:-../build/sx}
SYSROOT=$(rustc --print sysroot)
LLVM=$(cd "$SYSROOT/lib" && ls libLLVM-*-rust-*.so | head -1)
LLVM=${LLVM#lib}; LLVM=${LLVM%.so}
Z3DIR=/usr/lib/x86_64-linux-gnu
mkdir -p "$(dirname "$OUT")"
TMP="$OUT.$$"
rustc --edition 2021 -C opt-level=3 -C codegen-units=8 -o "$TMP" src/main.rs \
  -L native="$SYSROOT/lib" -L native="$Z3DIR" \
  -C link-arg=-l"$LLVM" -C link-arg=-lz3 \
  -C link-arg=-Wl,-rpath,"$SYSROOT/lib" -C link-arg=-Wl,-rpath,"$Z3DIR" 2>&1
mv "$TMP" "$OUT"
