#!/bin/bash
# Links main.cpp (beside this file) with the static library of the classical runtime of the current directory and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)"
mkdir "$d/src" && echo 'pub use qir_stdlib;' >"$d/src/lib.rs" && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[lib]
crate-type = ["staticlib"]
[dependencies]
qir-stdlib = { path = "$repo/stdlib", default-features = false, features = [FEATURES] }
[workspace]
T
cd "$d" || exit 3
CARGO_TARGET_DIR="$d/target" cargo build --offline -q &&
  g++ -std=c++17 -I"$repo/stdlib/include" "$here/main.cpp" "$d/target/debug/libdemo.a" -lpthread -ldl -lm -o "$d/program" &&
  "$d/program"
rc=$?
cd / && rm -rf "$d"
exit $rc
