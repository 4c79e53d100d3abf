export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
export CARGO_TARGET_DIR="$here/target"
unset RUSTFLAGS CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG CARGO_PROFILE_DEV_OPT_LEVEL CARGO_BUILD_TARGET RAYON_NUM_THREADS
