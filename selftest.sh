#!/bin/bash
# Determinism self-test: the same seeds must give the same event log (digest of every delivered
# event, answer and state) whatever the process, the grouping into processes, their number running
# at once and the environment. Usage: ./selftest.sh [runs per property, default 400]
cd "$(dirname "$0")" || exit 2
n="${1:-400}"; seed="${VERIF_SEED:-1}"
./check.sh --build > /dev/null || exit 2
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
bad=0
for p in 01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16 17 18; do
  k=$n; [ $p = 16 ] && k=$((n / 10))
  if [ $p = 08 ]; then bins="sim/target-cov/release/sim"; else bins="sim/target/release/sim sim/target/checked/sim"; fi
  for b in $bins; do
    export SIM_KNOWN=sgf-parser/label-multibyte,sgf-parser/coordinate-underflow
    # one process
    $b digests --prop C$p --seed $seed --from 0 --to $k > "$t/a" 2>&1
    # 40 processes, 16 at once, last ranges first, with a large environment
    s=$(( (k + 39) / 40 )); rm -f "$t"/b.*
    for i in $(seq 39 -1 0); do echo $i; done | PADDING="$(head -c 20000 /dev/zero | tr '\0' x)" RUST_MIN_STACK=9000000 xargs -P 16 -I{} sh -c \
      'f=$(({} * '$s')); e=$((f + '$s')); [ $e -gt '$k' ] && e='$k'; [ $f -lt $e ] && '$b' digests --prop C'$p' --seed '$seed' --from $f --to $e > '"$t"'/b.$(printf %03d {}) 2>&1; true'
    cat "$t"/b.* > "$t/b"
    # 3 at once
    s=$(( (k + 6) / 7 )); rm -f "$t"/c.*
    for i in 0 1 2 3 4 5 6; do echo $i; done | xargs -P 3 -I{} sh -c \
      'f=$(({} * '$s')); e=$((f + '$s')); [ $e -gt '$k' ] && e='$k'; [ $f -lt $e ] && env -i SIM_KNOWN="$SIM_KNOWN" '$b' digests --prop C'$p' --seed '$seed' --from $f --to $e > '"$t"'/c.{} 2>&1; true'
    cat "$t"/c.* > "$t/c"
    if cmp -s "$t/a" "$t/b" && cmp -s "$t/a" "$t/c" && [ "$(wc -l < "$t/a")" = "$k" ]; then
      echo "C$p ${b#sim/}: $k runs, three times each, identical"
    else
      echo "C$p ${b#sim/}: DIFFERENT"; bad=1; diff "$t/a" "$t/b" | head -4; diff "$t/a" "$t/c" | head -4
    fi
  done
done
exit $bad
