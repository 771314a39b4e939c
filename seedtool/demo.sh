#!/bin/bash
# Compiles demo.rs beside this file against the library in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
rerecast = { path = "$repo/crates/rerecast" }
glam = "0.29"
T
cd "$d" && CARGO_TARGET_DIR="$d/target" RUSTFLAGS="" cargo run --offline -q
