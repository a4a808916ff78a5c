#!/bin/bash
# Applies planted bugs to /repo one after another, runs the check of the bug's property (or those given in CHECKS) and undoes the bug.
# usage: tools/hunt.sh ID...   (default: all)
cd "$(dirname "$0")/.."
[ $# -gt 0 ] || set -- $(ls seeded)
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  [ -z "$(git -C /repo status --short)" ] || { echo "/repo is not clean"; exit 2; }
  git -C /repo apply "$PWD/seeded/$b/patch.diff" || { echo "$b: does not apply"; continue; }
  for c in ${CHECKS:-$p}; do
    s=$(date +%s)
    timeout 900 python3 check.py $c > /tmp/hunt.out 2>&1; rc=$?
    echo "$b $c exit $rc $(($(date +%s)-s))s $(grep -m1 '^VIOLATION' /tmp/hunt.out)"
  done
  git -C /repo checkout -q -- .
done
