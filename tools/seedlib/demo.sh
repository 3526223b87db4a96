#!/bin/bash
# Run in the repository. Exit 0: the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo-XXXXXX)
trap 'rm -rf -- "$tmp"' EXIT
mkdir "$tmp/o" "$tmp/w"
export TMPF="$tmp" HERE="$here"
flags="-std=c++20 -O0 -w -DLOGURU_WITH_STREAMS=0 -I$here -Isrc -Iother/loguru/include @FLAGS@"
( find @SRCS@ -name '*.cpp'; echo other/loguru/src/loguru.cpp; ls "$here"/*.cpp ) |
  xargs -P 8 -I{} sh -c 'clang++-18 '"$flags"' -c "{}" -o "$TMPF/o/$(echo "{}" | tr / _).o"' || exit 3
clang++-18 "$tmp"/o/*.o -lcrypto -lpng -ljpeg -lpthread -ldl -lrt -o "$tmp/demo" || exit 3
cd "$tmp/w" && timeout 120 "$tmp/demo" "$tmp/w"
