#!/bin/bash
# Builds main.rs (beside this file) against the crates of the current directory, with runner and pip compiled
# against stand-ins for inkwell and pyo3 (vendor, beside this file), and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)"
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" && cp -r "$here/vendor" "$d/vendor"
sed -i "s#/repo/#$repo/#g" "$d/vendor/runner/Cargo.toml" "$d/vendor/pip/src/lib.rs"
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
quantum-sparse-sim = { path = "$repo/sparsesim" }
qir-backend = { path = "$repo/backend" }
qir-stdlib = { path = "$repo/stdlib" }
runner = { path = "vendor/runner" }
qirrunner = { path = "vendor/pip" }
pyo3 = { path = "vendor/pyo3" }
[workspace]
T
cd "$d" || exit 3
CARGO_TARGET_DIR="$d/target" cargo run --offline -q
rc=$?
cd / && rm -rf "$d"
exit $rc
