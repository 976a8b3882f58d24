#!/bin/bash
# Builds the tool and the library of $REPO (default /repo) into $1 for tools/tooldrv.py.
set -e
out=$1 repo=${REPO:-/repo} here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$out"
inc="-I$repo/src -I$repo/lib -w -g -O1"
lib=$(ls "$repo"/src/*.c "$repo"/lib/*.c | grep -v '/bw-tool\.c$')
gcc $inc -o "$out/shr-tool" "$repo"/util/*.c $lib & a=$!
gcc $inc -fsanitize=address,undefined -fno-sanitize-recover=undefined -o "$out/shr-tool-asan" "$repo"/util/*.c $lib & b=$!
gcc $inc -fPIC -shared -o "$out/libt.so" "$here/toollib.c" $lib & c=$!
gcc -O1 -w -fPIC -shared -o "$out/preload.so" "$here/preload.c" -ldl & d=$!
wait $a; wait $b; wait $c; wait $d
