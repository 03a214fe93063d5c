#!/bin/bash
# Builds demo.rs against the crate in the working directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/demo.rs" "$t/src/main.rs" && cp Cargo.lock "$t/" || exit 9
cat > "$t/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
viadkim = { path = "$PWD" }
[profile.dev]
opt-level = 1
debug = false
[workspace]
E
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
cd "$t" && CARGO_TARGET_DIR="$t/target" timeout 280 cargo run --offline -q
