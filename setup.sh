#!/bin/bash
# Builds the symbolic executor and its companions into /verif/build.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
exec 9>build/.lock
flock 9
E=engine; B=build
CXX="g++ -O2 -g -std=c++17 -w -I/usr/lib/llvm-18/include"
need() { local t=$1; shift; for s in "$@"; do [ ! -e "$t" ] || [ "$s" -nt "$t" ] && return 0; done; return 1; }
pids=()
if need $B/expr.o $E/expr.cpp $E/expr.h; then $CXX -c $E/expr.cpp -o $B/expr.o & pids+=($!); fi
if need $B/solver.o $E/solver.cpp $E/solver.h $E/expr.h; then $CXX -c $E/solver.cpp -o $B/solver.o & pids+=($!); fi
if need $B/exec.o $E/exec.cpp $E/exec.h $E/builtins.inc $E/expr.h $E/solver.h; then $CXX -c $E/exec.cpp -o $B/exec.o & pids+=($!); fi
if need $B/prep $E/prep.cpp; then $CXX -O1 $E/prep.cpp -L/usr/lib/llvm-18/lib -lLLVM-18 -o $B/prep.tmp && mv $B/prep.tmp $B/prep & pids+=($!); fi
if need $B/model.bc $E/model.cpp; then clang++ -std=c++17 -O1 -Xclang -disable-llvm-passes -emit-llvm -w -c $E/model.cpp -o $B/model.tmp && mv $B/model.tmp $B/model.bc & pids+=($!); fi
if need $B/vf_native.o $E/vf_native.cpp $E/vf.h; then clang++ -std=c++17 -O1 -w -c $E/vf_native.cpp -o $B/vf_native.o & pids+=($!); fi
for p in "${pids[@]}"; do wait $p; done
if need $B/vsym $B/expr.o $B/solver.o $B/exec.o; then g++ $B/exec.o $B/expr.o $B/solver.o -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -o $B/vsym.tmp && mv $B/vsym.tmp $B/vsym; fi
echo "setup done"
