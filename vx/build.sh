#!/bin/bash
cd "$(dirname "$0")/.." && . harness/env.sh && cd vx && CARGO_TARGET_DIR=/verif/target/vx cargo build --offline 2>&1 | grep -E "^error" -A7
true
