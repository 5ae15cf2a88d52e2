#!/bin/sh
# Cargo RUSTC_WRAPPER: instruments the code under test (target builds of the astro-float crates only)
# with SanitizerCoverage edge callbacks, the simulator's clock and preemption points, and with
# load and store callbacks, which tell the simulator where statics are accessed.
rustc="$1"; shift
name=""; target=0; prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  [ "$prev" = "--target" ] && target=1
  case "$a" in --target=*) target=1;; esac
  prev="$a"
done
if [ "$target" = 1 ]; then
  case "$name" in
    astro_float_num|astro_float)
      exec "$rustc" "$@" -Clto=off -Cforce-frame-pointers=yes -Cpasses=sancov-module \
        -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
        -Cllvm-args=-sanitizer-coverage-pc-table \
        -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
    *) exec "$rustc" "$@" -Cforce-frame-pointers=yes ;;
  esac
fi
exec "$rustc" "$@"
