#!/bin/bash
# compiles the demonstration against the sources of the current directory and runs it
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
src=$(ls planner/src/*/*.cpp | grep -v -e core/log.cpp -e debug/)
g++ -std=c++17 -O1 -w -UNDEBUG -include cassert -include algorithm -Iplanner/src -I/usr/include/eigen3 "$here/demo.cpp" -x c++ $src -o "$tmp/demo" $(cat "$here/libs" 2>/dev/null) -llz4 -lpthread || exit 3
"$tmp/demo"
