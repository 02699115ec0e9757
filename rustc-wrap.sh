#!/bin/bash
# cargo's RUSTC_WRAPPER: compile the code under test with atomic operations routed to the simulator.
rustc="$1"; shift
case " $* " in
  *" --crate-name mopaq "*|*" --crate-name storm "*)
    export RUSTC_BOOTSTRAP=1
    exec "$rustc" "$@" --cfg mopaq_sim -Zsanitizer=thread -Zexternal-clangrt -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0 ;;
esac
exec "$rustc" "$@"
