#!/bin/bash
# build_fuzz.sh OUTDIR : the interpreter of /repo's working tree, instrumented for
# coverage-guided fuzzing, linked with fuzz.cpp to OUTDIR/fuzz.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${FUEL_REPO:-/repo}
OUT=$1
SRC=$REPO/CppLisp
mkdir -p "$OUT"
FLAGS="-std=c++11 -g1 -fno-omit-frame-pointer -w -DUNIT_TEST -DWITH_STATIC_DEBUGGER -I$SRC/CppLispInterpreter -I$SRC/CppLispDebugger -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all"
FILES=()
for f in "$SRC"/CppLispInterpreter/*.cpp "$SRC"/CppLispDebugger/*.cpp; do
  case $(basename "$f") in dllmain.cpp|stdafx.cpp) ;; *) FILES+=("$f");; esac
done
FILES+=("$HERE/fuzz.cpp")
pids=()
for f in $(ls -S "${FILES[@]}"); do
  opt=-O1; case $(basename "$f") in Environment.cpp) opt=-O0;; esac
  cov=-fsanitize=fuzzer-no-link; [ "$f" = "$HERE/fuzz.cpp" ] && cov=
  clang++ $FLAGS $cov $opt -c "$f" -o "$OUT/$(basename "$f" .cpp).o" 2>"$OUT/$(basename "$f" .cpp).log" & pids+=($!)
done
rc=0
for p in "${pids[@]}"; do wait "$p" || rc=1; done
if [ $rc != 0 ]; then cat "$OUT"/*.log >&2; exit 1; fi
objs=(); for o in "$OUT"/*.o; do [ "$(basename "$o")" = Environment.o ] || objs+=("$o"); done
clang++ $FLAGS -fsanitize=fuzzer "${objs[@]}" "$OUT/Environment.o" -ldl -o "$OUT/fuzz.tmp" || exit 1
mv "$OUT/fuzz.tmp" "$OUT/fuzz"
