#!/bin/bash
# compiles the demonstration with profiling and the thread sanitizer, and runs it in a scratch folder
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -g -O1 -w -fsanitize=thread -DPP_ENABLE_PROFILING -include cassert -include sstream -Iplanner/src "$here/demo.cpp" planner/src/debug/profiler.cpp -o "$tmp/demo" -lpthread || exit 3
cd "$tmp" && TSAN_OPTIONS=exitcode=66 ./demo
