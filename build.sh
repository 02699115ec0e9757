#!/bin/bash
# usage: build.sh sim|cli|all   (rebuilds from /repo's working tree; writes only below /verif/target)
. "$(dirname "$0")/env.sh"
what="${1:-all}"
mkdir -p "$VERIF/target"
exec 9>"$VERIF/target/.lock"; flock 9
export RUSTC_WRAPPER="$VERIF/rustc-wrap.sh" RUSTFLAGS="--cfg rustix_use_libc"
(cd "$VERIF/sim" && CARGO_TARGET_DIR="$VERIF/target/sim" cargo build --offline --locked -q) || exit 2
if [ "$what" != sim ]; then
  export RUSTC_WRAPPER=
  (cd "$VERIF/sim/simos" && CARGO_TARGET_DIR="$VERIF/target/preload" cargo rustc --offline --locked -q --manifest-path "$VERIF/sim/Cargo.toml" -p simos --features simos/preload --crate-type cdylib) || exit 2
  (cd /repo && CARGO_TARGET_DIR="$VERIF/target/cli" CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only cargo build --offline --locked -q -p storm-cli) || exit 2
fi
exit 0
