#!/bin/bash
# Usage: check.sh <PROPERTY> quick|thorough [--replay FILE]
# Builds the check of one property from /repo's current working tree and runs it.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
id="$1"; tier="${2:-quick}"; shift; shift || true
bin=check
log=$(mktemp)
if ! cargo build --locked --offline --manifest-path harness/Cargo.toml --bins >"$log" 2>&1; then
  tail -60 "$log"; rm -f "$log"
  echo "ERROR: the harness does not build against /repo"
  exit 2
fi
if [ "$id" = P25 ] && ! cargo build --locked --offline --manifest-path pyharness/Cargo.toml >"$log" 2>&1; then
  tail -60 "$log"; rm -f "$log"
  echo "ERROR: the Python extension does not build against /repo"
  exit 2
fi
rm -f "$log"
"$CARGO_TARGET_DIR/debug/$bin" "$id" "$tier" "$@"
rc=$?
exit $rc
