#!/bin/bash
# builds the demonstration against the library built from /repo and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
gcc -g -O1 -w -I"$repo/_build/libsonivox" -I"$repo/_build" -I"$repo/arm-wt-22k/include/libsonivox" -I"$repo/arm-wt-22k/include" -I"$repo/arm-wt-22k/host_src" -I"$repo/arm-wt-22k/lib_src" -I"$here" "$here/demo.c" -o "$tmp/demo" -L"$repo/_build" -lsonivox -Wl,-rpath,"$repo/_build" -lm -lpthread
cd "$tmp"
timeout 120 ./demo
