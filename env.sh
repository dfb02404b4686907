# Sourced by the scripts of /verif: toolchain and folders.
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR="$VERIF/target" RUSTC_WRAPPER=
unset RUSTFLAGS RUSTDOCFLAGS
