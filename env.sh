# Common environment for every build of the harness.
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.78.0-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=${VERIF_ROOT:-/verif}/target
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
unset RUSTFLAGS
