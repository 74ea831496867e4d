#!/bin/bash
# Builds the executables in a scratch directory and runs the scenario against them.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=${DEMO_TARGET:-$tmp/target} CARGO_PROFILE_DEV_DEBUG=0
cargo build --offline -q --bins || exit 3
mkdir "$tmp/w"
cd "$tmp/w" && timeout 120 python3 "$here/demo.py" "$CARGO_TARGET_DIR/debug"
