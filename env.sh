# Sourced by build.sh and check.sh: what cargo needs, offline, apart from /repo's own build.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1
export CARGO_TARGET_DIR=/verif/mc/target
export RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS RUSTDOCFLAGS CARGO_BUILD_TARGET
