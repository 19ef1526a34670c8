#!/bin/bash
# Run with cwd = the repository, after its build: compiles demo.cc against the built objects and runs it.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
OBJ=$(find _build/obj -name '*.o' | grep -v _test | grep -v '/test/')
g++ -std=c++14 -O1 -fno-strict-aliasing -iquote . -iquote _build/gen \
  -isystem third_party/com_github_robotlocomotion_drake/. \
  -DFMT_DEPRECATED_OSTREAM=1 -DFMT_HEADER_ONLY=1 -DFMT_NO_FMT_STRING_ALIAS=1 -DSPDLOG_FMT_EXTERNAL \
  "$HERE/demo.cc" $OBJ -o "$W/demo" -pthread
cd "$W"
timeout 120 ./demo
