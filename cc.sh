#!/bin/sh
# compile a witness to IR: cc.sh in.cpp out.bc [flags]
in=$1; out=$2; shift 2
exec /usr/bin/clang++ -std=c++20 -I"${VP_REPO:-/repo}/include" -I"$(dirname "$0")/witness" -O1 -Xclang -disable-llvm-passes -gline-tables-only -fno-exceptions -fno-rtti -w -emit-llvm -c "$in" -o "$out" "$@"
