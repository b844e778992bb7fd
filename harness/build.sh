#!/bin/bash
# build.sh OUTDIR : compiles the interpreter sources of /repo's working tree
# (with sanitizers) and links them with driver.cpp to OUTDIR/driver.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${FUEL_REPO:-/repo}
OUT=$1
SRC=$REPO/CppLisp
mkdir -p "$OUT"
CXX=${FUEL_CXX:-clang++}
FLAGS="-std=c++11 -g1 -fno-omit-frame-pointer -w -DUNIT_TEST -DWITH_STATIC_DEBUGGER -I$SRC/CppLispInterpreter -I$SRC/CppLispDebugger ${FUEL_SAN:--fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all}"
FILES=()
for f in "$SRC"/CppLispInterpreter/*.cpp "$SRC"/CppLispDebugger/*.cpp; do
  case $(basename "$f") in dllmain.cpp|stdafx.cpp) ;; *) FILES+=("$f");; esac
done
FILES+=("$HERE/driver.cpp" "$SRC/CppLisp/FuelMain.cpp")
compile() {
  # the default-scope constructor takes 13 s to optimise: -O0 for that file
  local opt=-O1; [ "$(basename "$1")" = Environment.cpp ] && opt=-O0
  $CXX $FLAGS $opt -c "$1" -o "$OUT/$(basename "$1" .cpp).o" 2>"$OUT/$(basename "$1" .cpp).log"
}
pids=()
# the biggest files first, all in parallel
for f in $(ls -S "${FILES[@]}"); do compile "$f" & pids+=($!); done
rc=0
for p in "${pids[@]}"; do wait "$p" || rc=1; done
if [ $rc != 0 ]; then cat "$OUT"/*.log >&2; exit 1; fi
# Environment.o last: the linker keeps the first copy of every inline function,
# which is then an optimised one
objs=(); for o in "$OUT"/*.o; do case $(basename "$o") in Environment.o|driver.o|FuelMain.o) ;; *) objs+=("$o");; esac; done
[ -e "$OUT/Environment.o" ] && objs+=("$OUT/Environment.o")
# the command line program, then the driver
$CXX $FLAGS "$OUT/FuelMain.o" "${objs[@]}" -ldl -o "$OUT/fuel" & p=$!
$CXX $FLAGS "$OUT/driver.o" "${objs[@]}" -ldl -o "$OUT/driver.tmp" || exit 1
wait $p || exit 1
mv "$OUT/driver.tmp" "$OUT/driver"
