#!/bin/bash
# Builds all check binaries once from the committed files and /repo's tree (offline).
set -eu
cd "$(dirname "$0")"
. ./env.sh
cargo build --locked --offline --manifest-path harness/Cargo.toml --bins
cargo build --locked --offline --manifest-path pyharness/Cargo.toml
