#!/bin/sh
# Builds and runs the demonstration beside this script against the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d /tmp/yamux-demo.XXXXXX) || exit 99
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$here/util.rs" "$work/src/util.rs"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
yamux = { path = "$repo/yamux" }
futures = "0.3"
log = "0.4"
[workspace]
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cd "$work" || exit 99
CARGO_TARGET_DIR="$work/target" cargo build --offline --quiet 2>"$work/log" || { rm -f Cargo.lock; CARGO_TARGET_DIR="$work/target" cargo build --offline --quiet 2>"$work/log" || { cat "$work/log"; exit 99; }; }
timeout 120 "$work/target/debug/demo"
