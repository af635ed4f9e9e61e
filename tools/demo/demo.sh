#!/bin/bash
# Runs the demonstration in main.rs against the crate in the current directory. Builds only in a scratch folder of its own.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d)
trap 'rm -rf -- "$w"' EXIT
mkdir -p "$w/src"
cp "$here/main.rs.txt" "$w/src/main.rs"
[ -f "$here/harness.rs.txt" ] && cp "$here/harness.rs.txt" "$w/src/harness.rs"
if [ -f "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$w/Cargo.lock"; fi
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
netsblox-vm = { path = "$repo", default-features = false, features = ["std"] }
rand = { version = "0.9.0", default-features = false }
gc-arena = { version = "=0.5.3", default-features = false }
[profile.dev]
debug = 0
overflow-checks = true
debug-assertions = true
T
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target"
unset RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER; export RUSTFLAGS=--cap-lints=allow
( cd "$w" && RUST_BACKTRACE=0 cargo build -q --offline ) || { echo "demo did not build" >&2; exit 3; }
cd "$w"
RUST_BACKTRACE=0 timeout 60 "$w/target/debug/demo"
rc=$?
[ $rc -eq 0 ] && echo "demo: as specified" || echo "demo: property broken (exit $rc)"
exit $rc
