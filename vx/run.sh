#!/bin/bash
# dev helper: run.sh UNIT [verus args]  (VX_CANARY=1 for the canary run)
unset RUSTUP_TOOLCHAIN
u=$1; shift; mkdir -p /tmp/w/o
/verif/target/vx/debug/vx ${VX_REPO:-/repo} /verif/units/$u.vu /tmp/w/o/$u.rs /tmp/w/o/$u.json || exit
x=$(grep -o '^//@verus .*' /verif/units/$u.vu | cut -c10-)
cd /tmp/w/o && verus $u.rs --crate-type=lib $x "$@"
