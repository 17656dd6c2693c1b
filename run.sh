#!/bin/bash
# usage: run.sh build | run <property> [quick|thorough] | replay <file> | list
# (Re)builds the model-checking harness from /repo's current working tree, then runs it.
# C01-C28 are checked by mc (harness/), which uses sparsesim, backend and stdlib;
# C29-C31 by mcr (harness-runner/), which also compiles runner and pip against stand-ins (vendor/);
# C33 by mcc (harness-c/), which links a C++ program with the static libraries.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
R=/repo
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$V/target" MC_VERIF="$V"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_RUSTFLAGS
mkdir -p "$V/target" "$V/evidence"

hash_of() { # root, paths...
  (cd "$1" && shift && find "$@" -type f -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}

# binary, crate directory, repository directories, directories of /verif, packages to rebuild
build() {
  (
    flock 9
    # Stamp by content: file times of a copied tree are not to be trusted.
    stamp="$(hash_of "$R" $3) $(hash_of "$V" $4)"
    if [ -x "$V/target/release/$1" ] && [ "$(cat "$V/target/stamp-$1" 2>/dev/null)" = "$stamp" ]; then exit 0; fi
    rm -f "$V/target/stamp-$1"
    cd "$V/$2" || exit 2
    if [ -d "$V/target/release" ]; then
      cargo clean --offline --release $5 >"$V/target/clean-$1.log" 2>&1
    fi
    if ! cargo build --offline --release >"$V/target/build-$1.log" 2>&1; then
      tail -60 "$V/target/build-$1.log" >&2
      exit 2
    fi
    echo "$stamp" >"$V/target/stamp-$1"
  ) 9>"$V/target/lock"
}
build_mc() {
  build mc harness "Cargo.toml Cargo.lock sparsesim backend stdlib" "harness vendor/rand" \
    "-p qir-stdlib -p qir-backend -p quantum-sparse-sim -p mc"
}
build_mcr() {
  build mcr harness-runner "Cargo.toml Cargo.lock sparsesim backend stdlib runner pip" "harness-runner harness/src/engine.rs vendor" \
    "-p qir-stdlib -p qir-backend -p quantum-sparse-sim -p runner -p inkwell -p qirrunner -p mcr"
}

# The C programs: the repository's static libraries with three selections of features, each linked with driver.cpp.
build_mcc() {
  build mcc harness-c "Cargo.toml Cargo.lock sparsesim backend stdlib" "harness-c harness/src/engine.rs harness-runner/src/prog.rs vendor/rand" \
    "-p mcc" || return 2
  (
    flock 9
    C="$V/target/capi"
    stamp="$(cat "$V/target/stamp-mcc")"
    if [ "$(cat "$V/target/stamp-capi" 2>/dev/null)" = "$stamp" ]; then exit 0; fi
    rm -f "$V/target/stamp-capi"
    mkdir -p "$C"
    exec >"$V/target/build-capi.log" 2>&1
    cd "$V/harness-c/lib" || exit 2
    if [ -d "$C/release" ]; then
      CARGO_TARGET_DIR="$C" cargo clean --offline --release -p qir-stdlib -p qir-backend -p quantum-sparse-sim -p capi
    fi
    n=0
    for f in full msg min; do
      rm -f "$C/libprogram-$f.so" "$C/unusable-$f"
      # If even the ordinary selection of features does not build, there is nothing to check. If only another
      # selection does not build, or a program does not compile against the header, the check says so.
      if ! CARGO_TARGET_DIR="$C" cargo build --offline --release --features $f 2>"$C/log-$f"; then
        cat "$C/log-$f"
        [ $f = full ] && exit 2
        { echo "the library does not build with this selection of features:"; grep -A6 -m1 '^error' "$C/log-$f"; } >"$C/unusable-$f"
      elif ! g++ -std=c++17 -O1 -g -w -fPIC -DCONFIG=$n -I"$R/stdlib/include" -c "$V/harness-c/driver.cpp" -o "$C/driver-$f.o" 2>"$C/log-$f"; then
        cat "$C/log-$f"
        { echo "the C++ program does not compile against the header:"; grep -m1 'error' "$C/log-$f"; } >"$C/unusable-$f"
      else
        g++ -shared -Wl,-z,lazy -Wl,-Bsymbolic -o "$C/libprogram-$f.so" "$C/driver-$f.o" \
          -Wl,--whole-archive "$C/release/libcapi.a" -Wl,--no-whole-archive -lpthread -ldl -lm || exit 2
      fi
      n=$((n + 1))
    done
    echo "$stamp" >"$V/target/stamp-capi"
  ) 9>"$V/target/lock"
  r=$?
  [ $r = 0 ] || tail -60 "$V/target/build-capi.log" >&2
  return $r
}

which=mc
case "${1:-}" in
  build) build_mc && build_mcr && build_mcc && exit 0; echo "build of the harness failed" >&2; exit 2 ;;
  build-mc | build-mcr | build-mcc) "${1/-/_}" && exit 0; exit 2 ;;
  run) case "${2:-}" in C29 | C30 | C31) which=mcr ;; C33) which=mcc ;; esac ;;
  replay) if grep -qE '"property": *"C33"' "${2:-/dev/null}"; then which=mcc; fi
    if grep -qE '"property": *"C(29|30|31)"' "${2:-/dev/null}"; then which=mcr; fi ;;
esac
build_$which || { echo "build of the harness failed" >&2; exit 2; }
exec "$V/target/release/$which" "$@"
