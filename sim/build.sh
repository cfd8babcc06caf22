#!/bin/bash
# Builds the simulator from /repo's working tree: build.sh OUTDIR
set -e
here=$(cd "$(dirname "$0")" && pwd); out=${1:?output directory}; repo=${SIM_REPO:-/repo}
mkdir -p "$out/gen/p1788"
sed -e 's/@[A-Za-z0-9_]*@/0/g' "$repo/p1788/version.hpp.in" > "$out/gen/p1788/version.hpp"
LIB="g++ -std=c++11 -O1 -DNDEBUG -w -fsanitize=thread -I$out/gen -I$repo -I$here -c"
OWN="g++ -std=c++17 -O2 -w -I$here -c"
jobs=()
job() { ( "$@" 2>"$out/$(printf %s "${!#}" | tr -c 'A-Za-z0-9\n' _).err" ) & jobs+=($!); }
for t in f:float d:double "l:long double"; do k=${t%%:*}; n=${t#*:}
  job $LIB "-DSIM_T=$n" "-DSIM_MIXED=exec_mixed_$k" "$here/exec_mixed.cpp" -o "$out/mixed_$k.o"
  job $LIB "-DSIM_T=$n" "-DSIM_TER=exec_ter_$k" "$here/exec_ter.cpp" -o "$out/ter_$k.o"
  job $LIB "-DSIM_T=$n" "-DSIM_SAME=exec_same_$k" "$here/exec_fmt.cpp" -o "$out/fmt_$k.o"
done
for f in exec_io exec_man exec_core exec_red child; do job $LIB "$here/$f.cpp" -o "$out/$f.o"; done
for f in rt core engine gen textgen main judge judge_math judge_tight judge_text judge_io; do job $OWN "$here/$f.cpp" -o "$out/$f.o"; done
bad=0; for j in "${jobs[@]}"; do wait $j || bad=1; done
if [ $bad = 1 ]; then cat "$out"/*.err >&2; exit 3; fi
bash "$here/stubs.sh" "$out" "$out"/mixed_?.o "$out"/fmt_?.o "$out"/ter_?.o "$out"/exec_*.o
g++ -c "$out/stubs.S" -o "$out/stubs.o"
g++ -rdynamic -o "$out/sim" "$out"/mixed_?.o "$out"/fmt_?.o "$out"/ter_?.o "$out"/exec_*.o "$out"/child.o "$out"/stubs.o "$out"/{rt,core,engine,gen,textgen,main,judge,judge_math,judge_tight,judge_text,judge_io}.o -Wl,-z,muldefs -lmpfr -lgmpxx -lgmp -lpthread -ldl
