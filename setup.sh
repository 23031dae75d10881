#!/bin/sh
# Every check builds what it needs from /repo itself; here only see that the
# tools are there and the simulator core compiles.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
g++ -std=gnu++17 -O2 -w -c sim/runtime.cpp -o "$d/runtime.o"
echo setup ok
