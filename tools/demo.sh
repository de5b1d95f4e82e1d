#!/bin/bash
# builds main.rs beside this script against /repo and runs it: exit 0 when the guarantee holds
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
d=$(mktemp -d /tmp/demo_XXXXXX)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp /repo/Cargo.lock "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
gpf = { path = "/repo" }
bumpalo = { version = "3.13.0", features = ["collections", "allocator_api"] }
[profile.dev]
opt-level = 1
T
cd "$d" || exit 2
export CARGO_TARGET_DIR="$d/target"
cargo build --offline -q 2> "$d/log" || { cat "$d/log"; exit 2; }
timeout 120 $(find "$d/target" -type f -name demo -path "*debug/demo" | head -1)
