#!/bin/bash
# Exit 0: the behaviour is right. Non-zero: it is broken (or the demonstration could not run).
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=1.97.1-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TARGET_DIR=/repo/target DATABASE_URL=sqlite:///repo/opsqueue/opsqueue_example_database_schema.db
work="$(mktemp -d)"
trap 'rm -rf -- "$work"' EXIT
cp -r "$here/." "$work/crate" || exit 9
cd "$work/crate" || exit 9
cargo build --offline --quiet >"$work/log" 2>&1 || { tail -30 "$work/log"; exit 9; }
cp /repo/target/debug/demo "$work/demo" && mkdir "$work/scratch" && cd "$work/scratch" || exit 9
timeout 120 "$work/demo" "$work/scratch"
