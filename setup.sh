#!/bin/bash
# Builds every check once, so that the build cache is warm.
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
cd "$VERIF" || exit 1
exec ./build.sh $(ls harness/cmd) octorpki localrpki ctrpki
