#!/bin/bash
# Builds demo.cpp against the libraries in /repo/_build and runs it.
set -u
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'cd /; find "$W" -mindepth 1 -delete; rmdir "$W"' EXIT
R="${REPO:-/repo}"
L=$R/_build/lib
cd "$W"
/usr/bin/clang++-14 -std=c++17 -g0 -O0 -w -fvisibility-inlines-hidden \
  -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  -I/usr/lib/llvm-14/include -I$R/include -I$R/_build/include \
  ${DEMO_CXXFLAGS:-} "$D/demo.cpp" -o demo -fuse-ld=lld -L/usr/lib/llvm-14/lib -Wl,-rpath,/usr/lib/llvm-14/lib \
  -Wl,--start-group $(find $L -name 'libphasar*.a' -size +0) -Wl,--end-group \
  /usr/lib/llvm-14/lib/libLLVM-14.so.1 -lstdc++fs \
  /usr/lib/x86_64-linux-gnu/libsqlite3.so /usr/lib/x86_64-linux-gnu/libboost_graph.so \
  /usr/lib/x86_64-linux-gnu/libboost_regex.so -lpthread $(ls /usr/lib/x86_64-linux-gnu/libz3.so 2>/dev/null) \
  || { echo "demo does not build"; exit 3; }
timeout 120 ./demo "$D" 2>&1
rc=$?
echo "demo exit $rc"
exit $rc
