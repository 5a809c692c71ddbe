#!/bin/bash
# usage: runjob.sh harness entry params... ; env T
cd /verif
H=$1; E=$2; shift 2
D=/tmp/rj${SYM_REPO//\//_}; mkdir -p $D
if [ ! -e $D/$H.bc ] || [ -n "$(find harness/$H.cpp harness/*.h engine build/runtime.bc /repo/include -newer $D/$H.bc -type f | head -1)" ]; then
clang++ -O2 -fno-pic -fno-pie -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -gline-tables-only -emit-llvm -c -include engine/shim/sym_pre.h -DEIGEN_DONT_VECTORIZE -DEIGEN_DONT_ALIGN -DEIGEN_NO_IO -DSYM_BITCODE -Wno-everything -isystem engine/shim -I engine -I harness -I ${SYM_REPO:-/repo}/include -isystem /usr/include/eigen3 -std=c++17 harness/$H.cpp -o $D/$H.tmp.bc  > $D/err.txt 2>&1 || { grep -m6 error: $D/err.txt; exit 9; }
llvm-link-18 $D/$H.tmp.bc build/runtime.bc -o $D/$H.bc  > $D/err.txt 2>&1 || { grep -m6 error: $D/err.txt; exit 9; }
fi
P=""; for p in "$@"; do P="$P --param $p"; done
build/symir $D/$H.bc --entry $E --out $D/$H.$E.$(echo "$*"|tr ' ' _).json --time ${T:-300} --seed 1 --samples 2 --max-violations 2 $P 2>&1 | tail -${L:-12}
python3 - $D/$H.$E.$(echo "$*"|tr ' ' _).json <<'P'
import json,sys
r=json.load(open(sys.argv[1]))
print({k:r[k] for k in ('paths','instructions','forks','queries','solver_s','checks','checks_solver','infeasible','wall_s')}, r['covers'] and {a:b['count'] for a,b in r['covers'].items()}, r['inconclusive'])
for v in r['violations']: print(v['kind'],v['label'],v['where'][:300],v['inputs'])
P
