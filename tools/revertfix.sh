#!/bin/bash
# revertfix.sh COMMIT PROP... : runs the checks on a copy of /repo with one "fix:" commit undone.
set -u
c=$1; shift
d=$(mktemp -d /tmp/rv.XXXXXX)
git -C /repo worktree list >/dev/null
git clone -q /repo "$d/r" && cd "$d/r" && git config user.email a@b && git config user.name a
if ! git revert -n "$c" >/dev/null 2>&1; then echo "$c CONFLICT"; rm -rf "$d"; exit 3; fi
for p in "$@"; do
  out=$(GOSLIDE_REPO="$d/r" timeout 900 /verif/bin/goslidecheck -check "$p" 2>&1); rc=$?
  echo "$c $p rc=$rc $(echo "$out" | grep -m1 '^VIOLATION' | cut -c1-60)"
  echo "$out" | grep -v '^VIOLATION' | sed 's/>QueryActiveNodeAndComputeActivations/>Q/g' | cut -c1-220 | head -3
done
rm -rf "$d"
