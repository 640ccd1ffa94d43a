#!/bin/bash
# builds a small program against the working tree in the current directory and runs it
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"; d=/tmp/bladeink-demo-c02-negative-random
mkdir -p "$d/src" && cp "$here/main.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/Cargo.lock" || exit 3
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
bladeink = { path = "$repo/runtime" }
bladeink-compiler = { path = "$repo/compiler" }
[workspace]
TOML
cd "$d" && cargo build --offline -q || exit 3
timeout 60 ./target/debug/demo "$here"
