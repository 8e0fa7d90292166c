#!/bin/sh
# RUSTC_WRAPPER: instrument only the system under test (rqrr) and the crate that instantiates
# its generics (glue).  Every basic-block edge of those crates calls the simulator's clock.
rustc="$1"; shift
case " $* " in
  *" --crate-name rqrr "*|*" --crate-name glue "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
esac
exec "$rustc" "$@"
