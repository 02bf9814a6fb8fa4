#!/bin/bash
# Demonstration: builds demo.rs (beside this file) against the crate in the current directory and runs it.
# Exit 0: behaves as documented; nonzero: broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 99
trap 'rm -r -- "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
fuel-tx = { path = "$repo", features = [FEATURES] }
fuel-types = { version = "0.5", features = ["random"] }
fuel-crypto = { version = "0.6", features = ["random"] }
rand = { version = "0.8", default-features = false, features = ["std_rng"] }
bincode = "1.3"
serde_json = "1"
[profile.dev]
debug = 0
incremental = false
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cd "$tmp" || exit 99
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target" RUSTC_WRAPPER=
cargo build --offline --quiet 2> "$tmp/build.log" || { tail -30 "$tmp/build.log"; exit 98; }
"$tmp/target/debug/demo"
