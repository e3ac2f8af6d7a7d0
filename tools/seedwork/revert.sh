#!/bin/bash
# revert.sh PROP commit...: reverse-applies a fix, runs the check, restores
P=$1; shift
for c in "$@"; do
  cd /repo; git diff $c $c^ > /tmp/rev.diff
  if git apply -3 /tmp/rev.diff >/dev/null 2>&1 && git diff --quiet --diff-filter=U; then
    (cd /verif; ./run.sh $P quick 2>&1 | grep -a "VIOLATION\|held\|case\|built" | cut -c1-300 | sed "s/^/$c: /")
  else echo "$c: does not apply"; fi
  git -C /repo reset -q --hard
done
git -C /repo status --short
