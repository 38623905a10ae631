#!/bin/bash
# variants.sh [NAME...]: builds the driver in /verif/variant for the named feature sets (all if
# none is named) from /repo's working tree into target/variants/NAME. Where a set does not
# compile, target/variants/NAME.failed holds the end of the log. Exit 2 if the default set does not.
cd "$(dirname "$0")/.." || exit 2
ROOT=$(pwd)
OUT=$ROOT/target/variants
mkdir -p "$OUT"
D="unsafe_access trail_saving BT_deepen dynamic_restart_threshold LRB_rewarding reason_side_rewarding rephase reward_annealing two_mode_reduction clause_elimination clause_vivification"
sets() {
  echo "default $D"
  for x in unsafe_access trail_saving BT_deepen dynamic_restart_threshold reason_side_rewarding rephase reward_annealing two_mode_reduction clause_elimination clause_vivification; do
    echo "no-$x $(echo "$D" | tr ' ' '\n' | grep -v "^$x\$" | tr '\n' ' ')"
  done
  for x in bi_clause_completion clause_rewarding stochastic_local_search suppress_reason_chain EMA_calibration just_used assign_rate no_IO; do
    echo "with-$x $D $x"
  done
  echo "EVSIDS ${D/LRB_rewarding/EVSIDS}"
  echo "minimal LRB_rewarding"
  echo "minimal-EVSIDS EVSIDS"
  echo "best-phases unsafe_access LRB_rewarding best_phases_tracking clause_elimination"
  echo "maximal ${D/unsafe_access/} bi_clause_completion clause_rewarding stochastic_local_search suppress_reason_chain EMA_calibration just_used assign_rate"
  echo "maximal-EVSIDS ${D/LRB_rewarding/EVSIDS} bi_clause_completion clause_rewarding stochastic_local_search suppress_reason_chain EMA_calibration just_used assign_rate"
  if [ "$VERIF_TIER" = thorough ]; then
    # all subsets are out of reach: some by a fixed rule
    A="unsafe_access trail_saving BT_deepen dynamic_restart_threshold reason_side_rewarding rephase reward_annealing two_mode_reduction clause_elimination clause_vivification bi_clause_completion clause_rewarding stochastic_local_search suppress_reason_chain EMA_calibration just_used assign_rate"
    for i in $(seq 1 24); do
      f=""
      j=0
      for x in $A; do
        j=$((j + 1))
        [ $((((i * 2654435761 + j * 40503 * (i + 7)) >> 7) % 2)) = 0 ] && f="$f $x"
      done
      if [ $((i % 3)) = 0 ]; then r=EVSIDS; else r=LRB_rewarding; fi
      echo "mix-$i $r$f"
    done
  fi
}
one() {
  n=$1
  shift
  rm -f "$OUT/$n.failed"
  if ! cargo build --manifest-path "$ROOT/variant/Cargo.toml" --offline --locked --release -j2 \
    --target-dir "$OUT/$n.d" --features "$*" >"$OUT/$n.log" 2>&1; then
    { grep -m3 -A3 '^error' "$OUT/$n.log"; } >"$OUT/$n.failed"
  fi
}
if [ "$1" = list ]; then
  sets | cut -d' ' -f1
  exit 0
fi
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR
export OUT ROOT
export -f one
WANT=" $* "
sets | while read -r n f; do
  [ "$WANT" = "  " ] || [[ $WANT == *" $n "* ]] && echo "$n $f"
done | xargs -P 8 -L 1 bash -c 'one "$@"' _
# a set asked for by name must build (the check of C22 reports those which do not)
for n in ${*:-default}; do
  if [ -e "$OUT/$n.failed" ]; then
    tail -30 "$OUT/$n.log"
    echo "ERROR: the feature set $n does not compile"
    exit 2
  fi
done
exit 0
