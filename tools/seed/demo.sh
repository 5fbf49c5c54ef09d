#!/bin/bash
# Builds the program beside this file against the crate in the current directory (/repo) and runs it.
set -u
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
mkdir -p "$S/src"
cp "$D/main.rs" "$S/src/main.rs"
[ -f "$D/fake.rs" ] && cp "$D/fake.rs" "$S/src/fake.rs"
cat >"$S/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
clickhouse-rs = { path = "$R" }
tokio = { version = "1", features = ["rt-multi-thread", "net", "time", "io-util"] }
futures-util = "0.3"
chrono = { version = "0.4", default-features = false, features = ["std"] }
chrono-tz = "0.8"
[workspace]
T
cp "$R/Cargo.lock" "$S/Cargo.lock" 2>/dev/null
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$S/target" CARGO_TERM_COLOR=never
(cd "$S" && cargo build --offline -q) >"$S/log" 2>&1 || { cat "$S/log"; exit 3; }
timeout 120 "$S/target/debug/demo"
