#!/bin/bash
# Builds the harness against the sources in $REPO (default /repo) into $1.
# usage: build.sh OUTDIR [asan|plain]
set -e
out=$1 mode=${2:-asan} repo=${REPO:-/repo} here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$out/obj"
cf="-g -O1 -fno-omit-frame-pointer -I$repo/src -I$repo/lib -w"
[ $mode = asan ] && cf="$cf -fsanitize=address,undefined -fno-sanitize-recover=undefined"
[ $mode = plain ] && cf="-g -O1 -I$repo/src -I$repo/lib -w"
pids=()
for f in "$repo"/src/*.c "$repo"/lib/*.c; do
  b=$(basename "$f" .c)
  [ "$b" = bw-tool ] && continue
  ( gcc $cf -c "$f" -o "$out/obj/lib_$b.o" && objcopy --redefine-syms="$here/wrap.syms" "$out/obj/lib_$b.o" ) & pids+=($!)
done
for f in "$here"/*.c; do
  b=$(basename "$f" .c)
  gcc $cf -I"$here" -c "$f" -o "$out/obj/h_$b.o" & pids+=($!)
done
for p in "${pids[@]}"; do wait $p; done
lib=$(ls "$out"/obj/lib_*.o)
for m in seq conc; do
  [ -f "$out/obj/h_$m.o" ] || continue
  gcc $cf -o "$out/$m" "$out/obj/h_$m.o" "$out/obj/h_ops.o" "$out/obj/h_wrap.o" $lib -lpthread
done
