#!/bin/bash
# unfix.sh <commit> <property...>: undo one fix commit in /repo's working tree, run the
# properties' quick checks, restore.  For testing the checks' sensitivity only.
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
c=$1; shift
trap 'git -C /repo checkout -q -- .' EXIT
if ! git diff "$c" "$c^" | git apply -3 2>/tmp/unfix.err; then echo "cannot undo $c"; cat /tmp/unfix.err; git reset -q --hard; exit 1; fi
git reset -q
echo "== undo $(git log -1 --format=%s $c)"
for p in "$@"; do (cd /verif && ./check.sh $p quick > /tmp/unfix.$p.log 2>&1; echo "$p exit $? $(grep -m1 -A1 '^---' /tmp/unfix.$p.log | cut -c1-200 | tr '\n' ' ')"); done
