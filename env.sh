export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export RUST_BACKTRACE=0
export RUSTFLAGS="--cfg keride_sim"
export CARGO_TARGET_DIR="${CARGO_TARGET_DIR:-/verif/sim/target}"
