#!/bin/bash
d=$(dirname "$0"); o=$(mktemp -d); f=$1; shift
clang++ -std=c++20 -g -w -fsanitize=address,undefined -rdynamic -I${VP_REPO:-/repo}/include -I$d/../witness $VP_FLAGS $f $d/native.cpp -o $o/a -ldl && $o/a "$@"; r=$?; rm -rf $o; exit $r
