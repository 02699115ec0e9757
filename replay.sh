#!/bin/bash
# usage: replay.sh <replay file>   (exit 1 and the violation if it reproduces)
. "$(dirname "$0")/env.sh"
bash "$VERIF/build.sh" all 1>&2 || exit 2
exec "$VERIF/target/sim/debug/mpqsim" replay "$1"
