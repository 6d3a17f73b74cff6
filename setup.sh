#!/bin/bash
# Mirrors /repo's crates and builds every driver once, so that checks only rebuild what changed.
cd "$(dirname "$0")" || exit 1
. tools/env.sh
unset CARGO_INCREMENTAL
mkdir -p build evidence replays
python3 tools/mirror.py || exit 1
cd harness && cargo build -q --offline --workspace --bins 2>&1 | grep -E "^error" -A12
exit ${PIPESTATUS[0]}
