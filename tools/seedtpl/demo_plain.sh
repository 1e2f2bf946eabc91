#!/bin/bash
# Builds the library of the current tree together with demo.cc and runs it.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
C=$PWD/framework/core
F="-I$C/include -I$C -I$D -w -std=gnu++23 -fPIC -DPLAIN_HAS_PTHREAD=1 -fexceptions -DPLAIN_CORE -DPLAIN_OPEN_EPOLL -O1 -g1"
{ find "$C/src" -name '*.cc'; echo "$D/demo.cc"; } | awk -v w="$W" '{print $0, w "/" NR ".o"}' |
  xargs -P 8 -L 1 sh -c 'exec g++ '"$F"' -c "$1" -o "$2"' sh || exit 3
g++ -rdynamic "$W"/*.o -o "$W/demo" -ldl -lpthread || exit 3
mkdir "$W/run" && cd "$W/run" && timeout 100 "$W/demo"
