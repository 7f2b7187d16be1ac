#!/bin/bash
# Run in the repository root, after it was built. Exit 0: behaves as promised.
HERE="$(cd "$(dirname "$0")" && pwd)"; REPO="$PWD"
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.90.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR
W="$(mktemp -d /tmp/demo.XXXXXXXX)" || exit 3
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src" "$W/out"
cp "$HERE/demo.rs" "$W/src/main.rs"
[ -f "$REPO/Cargo.lock" ] && cp "$REPO/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
measureme = { path = "$REPO/measureme" }
decodeme = { path = "$REPO/decodeme" }
analyzeme = { path = "$REPO/analyzeme" }
serde_json = "1.0"
measureme_10 = { package = "measureme", version = "10.1.3" }
T
(cd "$W" && cargo build -q --offline 2>"$W/log") || { cat "$W/log" >&2; exit 3; }
PRE=
if [ -f "$HERE/shim.c" ]; then gcc -O1 -shared -fPIC -o "$W/shim.so" "$HERE/shim.c" -ldl || exit 3; PRE="$W/shim.so"; fi
cd "$W/out" || exit 3
LD_PRELOAD="$PRE" REPO_BIN="$REPO/target/debug" timeout -k 2 ${DEMO_SECS:-120} "$W/target/debug/demo" "$W/out"
