#!/bin/bash
# Builds the engine stand-in as libwasmer_linux_amd64.a into $1 (default /verif/build/lib).
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="${1:-$here/../build/lib}"
mkdir -p "$out"
lib="$out/libwasmer_linux_amd64.a"
if [ "$lib" -nt "$here/wasmvm.c" ] && [ "$lib" -nt "$here/opcosts.h" ]; then exit 0; fi
tmp="$(mktemp -d "$out/tmp.XXXXXX")"
gcc -std=gnu11 -O2 -Wall -Wextra -fPIC -fexceptions -c "$here/wasmvm.c" -o "$tmp/wasmvm.o"
ar rcs "$tmp/lib.a" "$tmp/wasmvm.o"
mv -f "$tmp/lib.a" "$lib"
rm -f "$tmp/wasmvm.o"; rmdir "$tmp"
