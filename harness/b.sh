#!/bin/bash
# dev helper: build and run one search bin:  b.sh BIN [args]
. /verif/harness/env.sh; cd /verif/harness/search; CARGO_TARGET_DIR=/verif/target/h cargo build --offline --bin $1 2>&1 | grep -E "^error" -A9 | head -${L:-60}; b=$1; shift
timeout 300 /verif/target/h/debug/$b "$@" 2>&1 | grep -v "^Warning:" | tail -${T:-40} | cut -c1-${W:-900}
