#!/bin/bash
# Run with cwd = the repository: builds demo.rs against it in a scratch directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
export PATH=/root/.cargo/bin:/usr/local/bin:$PATH RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
mkdir -p "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$here/Cargo.lock" "$t/Cargo.lock"
sed "s#@REPO@#$repo#g" "$here/Cargo.toml.in" > "$t/Cargo.toml"
cd "$t" && timeout 200 cargo build --offline -q 2> "$t/err" || { cat "$t/err"; echo "demo does not build"; exit 2; }
timeout 60 "$t/target/debug/contract-harness"
