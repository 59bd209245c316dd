#!/bin/bash
# Builds the extractor and the real-code harness (offline).
cd "$(dirname "$0")" || exit 1
. harness/env.sh
mkdir -p target/run evidence
(cd vx && CARGO_TARGET_DIR=/verif/target/vx cargo build --offline) || exit 1
(cd harness/search && cargo build --offline --bins) || exit 1
