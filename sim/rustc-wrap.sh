#!/bin/bash
# RUSTC_WRAPPER: adds basic-block and memory-access callbacks to the crates whose code is simulated.
prev=; name=
for a in "$@"; do [ "$prev" = --crate-name ] && name=$a && break; prev=$a; done
case $name in
imageproc|simops|simwinops|rayon|rayon_core|crossbeam_deque|crossbeam_epoch|crossbeam_utils|itertools)
  exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
    -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
*) exec "$@" ;;
esac
