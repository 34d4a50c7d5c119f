#!/bin/bash
# Determinism self-test: the event-log digests of the same seeds under 8 and 5 workers and two hash seeds must be identical.
cd "$(dirname "$0")/.." || exit 2
T=$(mktemp -d); rc=0
for c in ${@:-C01 C02 C03 C04 C05 C06 C07 S01 S02 S03 P01 P02 P03 P04 H01 H02 H03 V01 E01 E02 E03 E04 E05 E06 E07}; do
  ./check $c --seed ${SEED:-9} --runs ${RUNS:-96} --workers 8 --digests $T/a >$T/o1 2>&1 || tail -3 $T/o1
  DST_HASHSEED=77 ./check $c --seed ${SEED:-9} --runs ${RUNS:-96} --workers 5 --digests $T/b >$T/o2 2>&1 || tail -3 $T/o2
  if cmp -s <(sort $T/a) <(sort $T/b); then echo "$c same $(tail -1 $T/o1)"; else echo "$c DIFFERS"; diff <(sort $T/a) <(sort $T/b) | head -4; rc=1; fi
done
rm -r -- "$T"
exit $rc
