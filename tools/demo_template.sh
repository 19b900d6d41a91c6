#!/bin/bash
# Runs with the repository as working directory. Exit 0: the property holds in
# the demonstrated situation; non-zero: it does not.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
repo="$PWD"
pkg=@PKG@
echo "{\"Replace\":{\"$repo/go/$pkg/zz_demo_test.go\":\"$here/demo_test.go.txt\"}}" > "$tmp/overlay.json"
cd "$repo/go" || exit 2
timeout 250 go test -vet=off -count=1 -timeout 200s @FLAGS@ -overlay "$tmp/overlay.json" -run '^TestDemo' "./$pkg"
