#!/bin/bash
# Builds what a check needs from /repo's working tree and runs it.
#   run.sh build            everything
#   run.sh C01 [tier]       one check
#   run.sh replay FILE      one replay file
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export CARGO_NET_OFFLINE=true
T="$PWD/target"
mkdir -p "$T" evidence
build() {
  local log="$T/build.$1.log"; shift
  if ! "$@" >"$log" 2>&1; then
    echo "build failed: $*" >&2
    tail -40 "$log" >&2
    exit 2
  fi
}
tsan() {
  RUSTFLAGS="-C passes=tsan -C llvm-args=-tsan-instrument-func-entry-exit=0 -C link-arg=-Wl,--unresolved-symbols=ignore-all" \
    cargo build --offline --release --target x86_64-unknown-linux-gnu --target-dir "$T/tsan" "$@"
}
pymod() {
  PYO3_PYTHON=/usr/bin/python3 cargo build --offline --release --manifest-path /repo/bindings/python/Cargo.toml \
    --target-dir "$T/pybuild" --features pyo3/extension-module || return 1
  mkdir -p "$T/py" && cp -f "$T/pybuild/release/libtokengeex.so" "$T/py/tokengeex.so"
}
exec 9>"$T/lock"
flock 9
build sim gcc -O2 -g -Wall -Wno-unused -fPIC -shared -fvisibility=hidden -o "$T/libsim.so.new" sim/sim.c -ldl -lpthread
mv -f "$T/libsim.so.new" "$T/libsim.so"
build cli tsan --manifest-path /repo/Cargo.toml --bin tokengeex
build driver tsan --manifest-path driver/Cargo.toml
build dst cargo build --offline --release --manifest-path dst/Cargo.toml --target-dir "$T/dst"
case "${1:-}" in
build | C01 | C02 | C03 | C04 | C15 | C23 | replay | selftest | one) build py pymod ;;
esac
flock -u 9
case "${1:-}" in
build) ;;
C*) exec "$T/dst/release/dst" check "$@" ;;
*) exec "$T/dst/release/dst" "$@" ;;
esac
