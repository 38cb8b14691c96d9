#!/bin/bash
# builds a small program against the crates of the current directory and runs it
set -u
HERE=$(cd "$(dirname "$0")" && pwd); REPO=$PWD
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src" "$W/out"
cp "$HERE/demo.rs" "$W/src/main.rs"; cp "$HERE/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "vharness"
version = "0.1.0"
edition = "2021"
[dependencies]
dess = { path = "$REPO/dess" }
dess-examples = { path = "$REPO/dess-examples" }
serde = { version = "1", features = ["derive"] }
anyhow = "1"
[workspace]
T
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/target"
cd "$W" || exit 3
cargo build -q --offline >"$W/log" 2>&1 || { tail -30 "$W/log"; exit 3; }
cd "$W/out" && timeout 60 "$W/target/debug/vharness"
