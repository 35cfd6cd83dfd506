#!/bin/sh
# Compile the program under test (and the libraries whose interleavings
# matter) with edge callbacks, so the simulator can preempt anywhere.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name="$a"; fi
  prev="$a"
done
case "$name" in
  jarl_lsp)
    # Every load and store too: shared counters and flags live here.
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-stores -Cllvm-args=-sanitizer-coverage-trace-loads ;;
  jarl_core|jarl|crossbeam_channel|lsp_server|rayon|rayon_core|crossbeam_deque)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
esac
exec "$rustc" "$@"
