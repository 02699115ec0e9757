#!/bin/bash
# usage: check.sh <property> quick|thorough
. "$(dirname "$0")/env.sh"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
cd "$VERIF" || exit 2
case "$id" in C14|C15|C16|C17|C20|C23) what=all;; *) what=sim;; esac
bash "$VERIF/build.sh" $what 1>&2 || { echo "build failed" >&2; exit 2; }
exec "$VERIF/target/sim/debug/mpqsim" check "$id" "$tier"
