#!/bin/bash
# Compiles the crates under test with coverage callbacks; every callback is a preemption point.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && { name="$a"; break; }
  prev="$a"
done
case "$name" in
  measureme|parking_lot|lock_api|dstexec)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores -Ccodegen-units=1 ;;
  *) exec "$rustc" "$@" ;;
esac
