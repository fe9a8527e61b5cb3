#!/bin/sh
# run a native oracle on the current tree: nat.sh <src> <prop> <secs> [extra flags]
cd "$(dirname "$0")/.."; R=${IRV_REPO:-/repo}
s=$1; p=$2; t=$3; shift 3
clang++-18 -std=c++17 -O1 -g1 -w -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=vptr -I$R -I$R/graphics -Inative native/$s -o /tmp/nat_$$ "$@" && ASAN_OPTIONS=detect_leaks=0:exitcode=77 /tmp/nat_$$ $p 1 $t; r=$?; rm -f /tmp/nat_$$; exit $r
