#!/bin/bash
# Builds main.rs (beside this file) against the crates of the current directory and runs it:
# exit 0 when the property holds in the demonstrated situation.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
w=$(mktemp -d)
trap 'find "$w" -delete' EXIT
mkdir -p "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
egobox-doe = { path = "$repo/crates/doe" }
DEPS
ndarray = "0.16"
rand_xoshiro = "0.6"
rand = "0.8"
linfa = { version = "0.8", default-features = false }
[profile.dev]
opt-level = 1
debug = false
T
cd "$w" || exit 3
CARGO_TARGET_DIR="$w/target" CARGO_INCREMENTAL=0 cargo build --offline --quiet 2>"$w/log" || { tail -30 "$w/log"; exit 3; }
mkdir "$w/cwd" && cd "$w/cwd" && timeout 120 "$w/target/debug/demo"
