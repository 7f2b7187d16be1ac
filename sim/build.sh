#!/bin/bash
# Builds the harness against the current /repo tree. Content, not time stamps, decides what is rebuilt.
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$HERE/env.sh"
cd "$HERE" || exit 2
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.dst-lock"; flock 9
hash=$( { find /repo -path /repo/target -prune -o -path /repo/.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.md' \) -print0 | sort -z | xargs -0 sha256sum
          find "$HERE" -path "$HERE/target" -prune -o -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum )
if [ "$(cat "$CARGO_TARGET_DIR/.dst-hash" 2>/dev/null)" != "$hash" ] || [ ! -x "$CARGO_TARGET_DIR/debug/dst" ]; then
  rm -f "$CARGO_TARGET_DIR/.dst-hash"
  for p in measureme decodeme analyzeme dstplan dstexec dst dsttools; do
    rm -rf "$CARGO_TARGET_DIR/debug/.fingerprint/$p"-*
  done
  log=$(cargo build --offline -q 2>&1) || { echo "$log" | grep -v "^ *|$" | tail -150 >&2; exit 2; }
  # the command line tools are the repository's own binaries; they are run with this library preloaded
  gcc -O2 -g -fPIC -shared -w -fno-builtin -U_FORTIFY_SOURCE c/libsim.c -o "$CARGO_TARGET_DIR/libsimtool.so.$$" -ldl -lpthread && mv "$CARGO_TARGET_DIR/libsimtool.so.$$" "$CARGO_TARGET_DIR/libsimtool.so" || exit 2
  for p in measureme decodeme analyzeme crox flamegraph stack_collapse summarize mmview mmedit; do
    rm -rf "$CARGO_TARGET_DIR/repo/debug/.fingerprint/$p"-*
  done
  log=$(cd /repo && RUSTC_WRAPPER= CARGO_TARGET_DIR="$CARGO_TARGET_DIR/repo" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=false cargo build --offline -q --workspace --bins 2>&1) || { echo "$log" | grep -v "^ *|$" | tail -150 >&2; exit 2; }
  echo "$hash" > "$CARGO_TARGET_DIR/.dst-hash"
fi
