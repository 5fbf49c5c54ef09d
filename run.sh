#!/bin/bash
# Builds the harness from /repo's working tree and runs it: run.sh check <id> quick|thorough, run.sh replay <file>, run.sh list
set -u
V=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export RUSTFLAGS="--cfg clickhouse_verif" CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="${CHMC_TARGET:-$V/target}"
# The build script of the cityhash crate does not watch its sources; a changed flag makes it run again.
H=$(cd /repo/clickhouse-rs-cityhash-sys && cat build.rs src/cc/* src/*.rs 2>/dev/null | sha256sum | cut -c1-16)
export CXXFLAGS="-DVP_SOURCE_HASH=h$H"
unset CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR"
LOG="$CARGO_TARGET_DIR/build.log"
# Rebuild the crate whenever its contents differ from those of the last build, whatever the file times say.
S=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.cc' -o -name '*.h' -o -name '*.cpp' -o -name '*.c' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32)
if [ "$(cat "$CARGO_TARGET_DIR/source.stamp" 2>/dev/null)" != "$S" ]; then
  rm -f "$CARGO_TARGET_DIR/source.stamp"
  (cd "$V/harness" && cargo clean --offline --locked -p clickhouse-rs -p clickhouse-rs-cityhash-sys >/dev/null 2>&1)
fi
if ! (cd "$V/harness" && cargo build --offline --locked >"$LOG" 2>&1); then
  cat "$LOG" >&2
  echo "build failed" >&2
  exit 2
fi
echo "$S" >"$CARGO_TARGET_DIR/source.stamp"
[ "${1:-}" = build ] && exit 0
exec "$CARGO_TARGET_DIR/debug/chmc" "$@"
