#!/bin/bash
# Builds main.rs (beside this file) against the crates of the current directory and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)"
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
quantum-sparse-sim = { path = "$repo/sparsesim" }
qir-backend = { path = "$repo/backend" }
qir-stdlib = { path = "$repo/stdlib" }
num-bigint = "*"
num-complex = "*"
ndarray = "*"
rand = "*"
[workspace]
T
cd "$d" || exit 3
CARGO_TARGET_DIR="$d/target" cargo run --offline -q
rc=$?
cd / && rm -rf "$d"
exit $rc
