#!/bin/bash
# Builds demo.cpp against the libraries build.sh made and runs it in a scratch directory of its own.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf -- "$W"' EXIT
cd /repo || exit 3
F="-std=c++20 -DSQLITE_ENABLE_NORMALIZE -I/repo -I/repo/mbedtls/include -I$D -w -O0"
[ -e /opt/vp/missing/mbedtls3.h ] && F="$F -include /opt/vp/missing/mbedtls3.h"
clang++-18 $F -o "$W/demo" "$D/demo.cpp" "$D/shim.cpp" -Wl,--wrap=sqlite3_prepare_v2 -Wl,--wrap=sqlite3_prepare_v3 -Wl,--wrap=sleep @WRAP@ -Wl,--start-group /repo/libbedrock.a /repo/libstuff.a -Wl,--end-group -lsqlite3 -ldl -lpcre2-8 -lpthread -lmbedtls -lmbedx509 -lmbedcrypto -lz -lzstd -lm -rdynamic || { echo "demo does not compile"; exit 4; }
cd "$W" && timeout -s KILL 120 ./demo
