#!/bin/bash
# builds main.rs against the rgeometry in the current directory and runs it
set -e
d=$(cd "$(dirname "$0")" && pwd); repo=$PWD; t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$d/main.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rgeometry = { path = "$repo" }
num = "0.4.3"
num-bigint = "0.4.6"
num-rational = "0.4.2"
ordered-float = "4.6.0"
rand = { version = "0.8", default-features = false, features = ["small_rng"] }
[profile.dev]
overflow-checks = true
[workspace]
T
cd "$t"
CARGO_TARGET_DIR="$t/target" CARGO_INCREMENTAL=0 timeout 280 cargo +1.83.0 run -q --offline
