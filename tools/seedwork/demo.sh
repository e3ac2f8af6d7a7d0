#!/bin/bash
# Runs the demonstration beside this file as a test of the package; cwd is the repository.
D=$(cd "$(dirname "$0")" && pwd)
PKG=@PKG@
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor HOME=${HOME:-/root}
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
{
  echo '{"Replace":{'
  sep=
  for f in "$D"/*_test.go; do
    printf '%s"%s/%s/zz_demo_%s":"%s"' "$sep" "$PWD" "$PKG" "$(basename "$f")" "$f"
    sep=,
  done
  echo '}}'
} > "$T/overlay.json"
go test -count=1 -vet=off -overlay "$T/overlay.json" -run '^TestDemo' "./$PKG"
