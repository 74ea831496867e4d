#!/bin/bash
# Builds a small program that uses the library in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=${DEMO_TARGET:-$tmp/target} CARGO_PROFILE_DEV_DEBUG=0
mkdir -p "$tmp/c/src" "$tmp/w"
cp "$here/demo.rs" "$tmp/c/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/c/"
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nginko = { path = "%s/ginko" }\n[workspace]\n' "$repo" > "$tmp/c/Cargo.toml"
(cd "$tmp/c" && cargo build --offline -q) || exit 3
cd "$tmp/w" && timeout 60 "$CARGO_TARGET_DIR/debug/demo"
