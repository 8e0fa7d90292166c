#!/bin/bash
# Run with the working directory at the repository; builds main.rs against it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)" || exit 2
trap 'rm -rf -- "$d"' EXIT
export HOME=/root CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUST_BACKTRACE=0
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER=
unset RUSTFLAGS
mkdir -p "$d/src" && cp "$here/main.rs" "$here/kit.rs" "$d/src/" || exit 2
cp "$repo/Cargo.lock" "$d/" 2>/dev/null
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
rqrr = { path = "$repo", default-features = false, features = [FEATURES] }
IMAGE
[workspace]
T
cd "$d" && cargo build --offline --quiet || exit 3
cd "$d" && timeout 200 "$d/target/debug/demo"
