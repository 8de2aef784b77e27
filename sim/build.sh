#!/bin/bash
# build.sh OUTDIR [uni|tab|thr] : compile one simulator binary against /repo's current working tree
# (REPO and OPT override the source tree and the optimisation level)
set -e
S=$(cd "$(dirname "$0")" && pwd); O=${1:?}; W=${2:-uni}; R=${REPO:-/repo}; mkdir -p "$O"
CXX="g++ -std=c++17 -DNDEBUG -w -fno-pie -ftrivial-auto-var-init=pattern ${OPT:--O1} -g1 -I$R/include -I$S"
pids=(); objs=()
cc() { $CXX "${@:2}" -c "$S/$1.cpp" -o "$O/$W.$1.o" & pids+=($!); objs+=("$O/$W.$1.o"); }
case $W in
uni) for f in uni_c0 uni_c1 uni_c2 uni_c3 uni_plan; do cc $f; done;;
tab) cc tab;;
# (gcc does not instrument a call result stored in a static object; clang does)
thr) CXX=${CXX/g++/clang++} cc thr -fsanitize-coverage=trace-pc -fsanitize=thread; cc sched; L=-rdynamic;;
esac
cc main; cc rt; cc simfs
for p in "${pids[@]}"; do wait $p; done
$CXX -no-pie $L -o "$O/sim_$W.tmp" "${objs[@]}" -ldl -lpthread
mv "$O/sim_$W.tmp" "$O/sim_$W"
