#!/bin/bash
# determinism.sh [COUNT] [BASE]: hashes the complete histories of the first COUNT runs of every property in several
# processes at once (under load, with different environment sizes) and compares them. Exit 0 when all are identical.
here=$(cd "$(dirname "$0")/.." && pwd); n=${1:-300}; base=${2:-1}; d=$(mktemp -d); rc=0
b=${SIM_BIN:-}; [ -n "$b" ] || { bash "$here/sim/build.sh" "$d/b" || exit 3; b=$d/b; }
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17; do
  for k in 1 2 3 4 5 6 7 8 9 10 11 12; do ( export PAD=$(head -c $((k * 997)) /dev/zero | tr '\0' x); cd "$d"; "$b/sim" hash --prop $p --base $base --count $n > "$d/$p.$k" ) & done; wait
  u=$(md5sum "$d/$p".* | cut -d' ' -f1 | sort -u | wc -l)
  echo "$p: 12 processes x $n runs, $u different histories"; [ "$u" = 1 ] || { rc=1; cmp "$d/$p.1" "$d/$p.2"; }
done
find "$d" -delete; exit $rc
