# Same toolchain as /opt/vp/env.sh; own target directory.
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.70.0
PINNED=/root/.rustup/toolchains/nightly-2023-02-17-x86_64-unknown-linux-gnu/bin
export RUSTC=$PINNED/rustc RUSTDOC=$PINNED/rustdoc
export RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="${VERIF_TARGET:-/verif/target}"
unset RUSTFLAGS RUST_BACKTRACE
