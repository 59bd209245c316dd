export HOME=/root
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2025-05-17 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=/verif/target/h
export RUSTFLAGS="--cfg vp_hooks"
