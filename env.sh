# The toolchain environment of the checks (the one /opt/vp/build.sh builds with).
export HOME=/root LANG=${LANG:-C.UTF-8}
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUST_BACKTRACE=0 RUSTFLAGS= PYTHONDONTWRITEBYTECODE=1
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET
export VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
