export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=/verif/build/target CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
