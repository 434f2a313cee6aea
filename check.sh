#!/bin/bash
# check.sh <property> [quick|thorough]   builds /repo's working tree and the harness, runs one check
# check.sh --setup                        only builds
# check.sh --replay <file>                runs one saved failure again
set -u
V=$(cd "$(dirname "$0")" && pwd)
REPO=${SF_REPO:-/repo}
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
unset RUST_BACKTRACE RUSTFLAGS CARGO_BUILD_TARGET
B=${SF_BUILD:-$V/build}
mkdir -p "$B"
exec 9>"$B/lock"; flock 9
fail() { echo "couldn't build $1:"; tail -50 "$2"; exit 2; }
# never trust time stamps: silverfox itself is always compiled again
rm -rf "$B"/repo/debug/.fingerprint/silverfox-* "$B"/repo/debug/silverfox
gcc -O1 -fPIC -c -o "$B/cov.o" "$V/shim/cov.c" >"$B/shim.log" 2>&1 || fail cov "$B/shim.log"
# with edge counters, which guide the search (without, if that doesn't work)
build() { CARGO_TARGET_DIR="$B/repo" cargo rustc --offline --locked --bin silverfox --manifest-path "$REPO/Cargo.toml" -- "$@" >"$B/repo.log" 2>&1; }
if build -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-inline-8bit-counters -C link-arg="$B/cov.o"; then
    export SF_COV=1
else
    build || fail "$REPO" "$B/repo.log"
fi
if [ ! -e "$B/shim.so" ] || [ "$V/shim/shim.c" -nt "$B/shim.so" ]; then
    gcc -O1 -shared -fPIC -o "$B/shim.so.tmp" "$V/shim/shim.c" -ldl >"$B/shim.log" 2>&1 || fail shim "$B/shim.log"
    mv "$B/shim.so.tmp" "$B/shim.so"
fi
CARGO_TARGET_DIR="$B/harness" cargo build --release --offline --manifest-path "$V/harness/Cargo.toml" >"$B/harness.log" 2>&1 || fail harness "$B/harness.log"
[ "${1:-}" = --setup ] && exit 0
# (the binary that is checked is a copy, so that a later build can't change it under a running check)
BIN=$B/bin.$$
cp "$B/repo/debug/silverfox" "$BIN" || exit 2
trap 'rm -f "$BIN"' EXIT
flock -u 9
export SF_SRC=$REPO/src SF_BIN=$BIN SF_SHIM=$B/shim.so SF_VERIF=$V
if [ "${1:-}" = --replay ]; then "$B/harness/release/sfcheck" replay "$2"; else "$B/harness/release/sfcheck" "$1" "${2:-quick}"; fi
