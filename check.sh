#!/bin/bash
# check.sh ID [check|replay FILE|show N]: builds what the check of property ID needs from
# /repo's working tree and runs it.  Exit 0: held, 1: violation, 2: the check did not work.
cd "$(dirname "$0")" || exit 2
ROOT=$(pwd)
ID=$1
CMD=${2:-check}
export VERIF_ROOT=$ROOT
export CARGO_TARGET_DIR=$ROOT/target
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET

build() { # build LOG cargo-args...
  local log=$ROOT/target/$1.log
  mkdir -p "$ROOT/target"
  shift
  if ! cargo "$@" >"$log" 2>&1; then
    tail -40 "$log"
    echo "ERROR: cargo $* failed"
    exit 2
  fi
}

BIN=$ROOT/target/release/splrcheck
case $ID in
  C24)
    (cd harness && build harness-checked build --offline --profile checked) || exit 2
    export SPLR_RELEASE=$BIN
    BIN=$ROOT/target/checked/splrcheck ;;
esac
(cd harness && build harness build --offline --release) || exit 2
case $ID in
  C10|C11|C30)
    export CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16 \
      CARGO_PROFILE_RELEASE_OPT_LEVEL=2
    build bins build --manifest-path /repo/Cargo.toml --bins --release --locked --offline \
      --target-dir "$ROOT/target/bins"
    export SPLR_BIN=$ROOT/target/bins/release ;;
  C22)
    export SPLR_VARIANTS=$ROOT/target/variants
    tools/variants.sh || exit 2 ;;
  C25)
    export SPLR_VARIANTS=$ROOT/target/variants
    tools/variants.sh with-bi_clause_completion || exit 2 ;;
  C26)
    export SPLR_VARIANTS=$ROOT/target/variants
    tools/variants.sh with-stochastic_local_search || exit 2 ;;
esac
[ "$CMD" = build ] && exit 0
shift 2 2>/dev/null
exec "$BIN" "$CMD" "$ID" "$@"
