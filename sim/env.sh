# sourced: build environment of the harness
DSTENV="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.90.0
export RUSTC_WRAPPER="$DSTENV/sim/rustc-wrap.sh" CARGO_TARGET_DIR="$DSTENV/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
