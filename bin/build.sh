#!/bin/bash
# Build the program under test, the shim and the simulator from the current trees.  Quiet unless it fails.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh 2>/dev/null || true
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS
b=$here/.build
repo=$(cd "$here/../repo" && pwd)
mkdir -p "$b"
fail() { echo "BUILD FAILED: $1"; tail -60 "$b/build.log"; exit 2; }
exec 9>"$b/lock"; flock 9
cc -O2 -fPIC -shared -fvisibility=hidden -fno-delete-null-pointer-checks -w -o "$b/shim.so.tmp" "$here/shim/shim.c" >"$b/build.log" 2>&1 \
  && mv "$b/shim.so.tmp" "$b/shim.so" || fail shim
# the same profile settings as the simulator's, so that both see the same assertions
CARGO_TARGET_DIR=$b/cli CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only \
  CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=true CARGO_PROFILE_DEV_OVERFLOW_CHECKS=true \
  cargo build --manifest-path "$repo/Cargo.toml" --bin markdown-fmt --features build-binary --locked --offline >"$b/build.log" 2>&1 || fail cli
RUSTC_WRAPPER=$here/bin/rustc.sh CARGO_TARGET_DIR=$b/sim cargo build --manifest-path "$here/sim/Cargo.toml" --locked --offline >"$b/build.log" 2>&1 || fail sim
# the build script as a program; only C23 needs it
CARGO_TARGET_DIR=$b/gen cargo build --manifest-path "$here/gen/Cargo.toml" --locked --offline >"$b/gen.log" 2>&1 || rm -f "$b/gen/debug/gen-tests"
chmod -R a+rX "$b/gen/debug/gen-tests" 2>/dev/null
chmod -R a+rX "$b/shim.so" "$b/cli/debug/markdown-fmt" 2>/dev/null
exit 0
