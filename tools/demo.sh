#!/bin/bash
# Builds demo.cc (beside this file) against the built tree in the current directory and runs it.
set -u
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
/usr/bin/clang++-18 -std=c++20 -O1 -g -w -I"$PWD/src/include" -I"$PWD" -I"$PWD/_build/gen" "$d/demo.cc" \
  "$PWD/_build/libtranscoding.a" "$PWD/_build/libgoogleapis.a" -lprotobuf \
  /usr/lib/x86_64-linux-gnu/libabsl_*.so -lpthread -o "$t/demo" || exit 3
timeout 60 "$t/demo"
