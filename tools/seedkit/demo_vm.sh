#!/bin/bash
# Exit 0 when the contract calls of demo_test.go behave as they should, nonzero otherwise.
# Builds the engine stand-in beside this file and runs the real machine over it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export HOME=/root GOPATH=${GOPATH:-/root/go}
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
gcc -std=gnu11 -O2 -fPIC -fexceptions -c "$here/wasmvm.c" -o "$tmp/wasmvm.o" && ar rcs "$tmp/libwasmer_linux_amd64.a" "$tmp/wasmvm.o" || exit 3
cp go.mod go.sum "$tmp/"
{
  printf '{"Replace":{'
  for f in "$here"/pup/*.go; do printf '"%s/zzverif/pup/%s":"%s",' "$repo" "$(basename "$f")" "$f"; done
  printf '"%s/zzverif/demo/kit_test.go":"%s/kit_test.go",' "$repo" "$here"
  printf '"%s/zzverif/demo/demo_test.go":"%s/demo_test.go"}}' "$repo" "$here"
} > "$tmp/overlay.json"
CGO_LDFLAGS="-L$tmp" VH_VERIF="$here" go test -c -o "$tmp/demo.test" -modfile="$tmp/go.mod" -overlay "$tmp/overlay.json" -vet=off ./zzverif/demo/ || exit 4
cd "$tmp" && VH_VERIF="$here" ./demo.test -test.timeout 120s
