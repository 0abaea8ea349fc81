#!/bin/bash
# Exit 0 when demo_test.go passes against the code in the current directory, nonzero otherwise.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export HOME=/root GOPATH=${GOPATH:-/root/go}
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
cp go.mod go.sum "$tmp/"
if [ -f "$here/wasmvm.c" ]; then
  gcc -std=gnu11 -O2 -fPIC -fexceptions -c "$here/wasmvm.c" -o "$tmp/wasmvm.o" && ar rcs "$tmp/libwasmer_linux_amd64.a" "$tmp/wasmvm.o" || exit 3
  export CGO_LDFLAGS="-L$tmp" VH_VERIF="$here"
fi
printf '{"Replace":{"%s/zzverif/demo/demo_test.go":"%s/demo_test.go"}}' "$repo" "$here" > "$tmp/overlay.json"
go test -c -o "$tmp/demo.test" -modfile="$tmp/go.mod" -overlay "$tmp/overlay.json" -vet=off ./zzverif/demo/ || exit 4
cd "$tmp" && VH_VERIF="$here" ./demo.test -test.timeout 120s
