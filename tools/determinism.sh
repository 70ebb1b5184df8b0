#!/bin/sh
# One seed is one execution: the digests of all runs agree between worker counts and hash seeds.
cd "$(dirname "$0")/.." || exit 2
d=$(mktemp -d)
for p in ${*:-C01 C02 C04 C05 C06 C07 C09 C11 C13 C15 C16 C17 C18 C19}; do
  ./check $p --runs 80 --seconds 300 --workers 8 --digests $d/a >/dev/null || exit 1
  DST_HASHSEED=77 ./check $p --runs 80 --seconds 300 --workers 3 --digests $d/b >/dev/null || exit 1
  if cmp -s $d/a $d/b; then echo "$p: same"; else echo "$p: DIFFERENT"; diff $d/a $d/b | head -4; fi
done
rm -r "$d"
