#!/bin/bash
# Builds demo.rs against the crate in the current directory (/repo) in a scratch folder and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$here/common.rs" "$d/src/common.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
viadkim = { path = "$repo"FEATURES }
tokio = { version = "1.33.0", features = ["rt", "time", "test-util"] }
rsa = { version = "0.9.6", default-features = false, features = ["std"] }
base64ct = { version = "1.6.0", features = ["alloc"] }
[profile.dev]
debug = 0
[profile.dev.package."*"]
opt-level = 1
T
cd "$d" || exit 2
CARGO_TARGET_DIR=${DEMO_TARGET_DIR:-$d/target} cargo build --offline -q 2>"$d/log" || { tail -30 "$d/log" >&2; exit 3; }
timeout 60 "${DEMO_TARGET_DIR:-$d/target}/debug/demo"
