#!/bin/bash
# usage: seed.sh ID   -- verifies /verif/seeded/ID in a scratch copy
id=$1; d=/verif/seeded/$id; sc=/tmp/sc
rm -rf /tmp/sc; cp -a /repo /tmp/sc || exit 9
cd /tmp/sc
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TARGET_DIR=/tmp/sc/target
echo "== $id: demo on unchanged"; (env -u CARGO_TARGET_DIR bash $d/demo.sh >/tmp/seed.o 2>&1; echo "rc $?"; tail -1 /tmp/seed.o | cut -c1-100)
git apply $d/patch.diff || exit 9
git diff --stat | tail -1
for f in "" "--features pre-rfc8301"; do cargo test --workspace --offline $f -- --test-threads 8 2>&1 | awk '/^test result/{p+=$4;f+=$6} /^error|panicked/{print} END{print "passed",p,"failed",f}'; done
echo "== demo on changed"; (env -u CARGO_TARGET_DIR bash $d/demo.sh >/tmp/seed.o 2>&1; echo "rc $?"; tail -1 /tmp/seed.o | cut -c1-100)
cd /; rm -rf /tmp/sc
