#!/bin/bash
# Builds the check binaries from /repo's working tree (see DESIGN.md, "Building").
# usage: build.sh [group ...]     groups: directories of harness/cmd, and tools (the cfrpki commands)
set -e
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build}
mkdir -p "$VERIF/bin"
OVER="$VERIF/bin/overlay.$$.json"
trap 'rm -f "$OVER"' EXIT
{
  echo '{"Replace":{'
  first=1
  while IFS= read -r f; do
    rel=${f#"$VERIF/harness/"}
    [ $first = 1 ] || echo ','
    first=0
    printf '"%s/verifharness/%s":"%s"' "$REPO" "$rel" "$f"
  done < <(find "$VERIF/harness" -name '*.go' | sort)
  echo '}}'
} > "$OVER"
cd "$REPO"
for g in "$@"; do
  case $g in
    octorpki|localrpki|ctrpki)
      go build -o "$VERIF/bin/$g.$$" ./cmd/$g ;;
    octorpki-race|ctrpki-race)
      CGO_ENABLED=1 go build -race -o "$VERIF/bin/$g.$$" ./cmd/${g%-race} ;;
    *)
      go build -overlay "$OVER" -o "$VERIF/bin/$g.$$" ./verifharness/cmd/$g ;;
  esac
  mv -f "$VERIF/bin/$g.$$" "$VERIF/bin/$g"
done
