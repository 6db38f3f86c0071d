#!/bin/bash
# Takes back each repair of known_findings.txt in a scratch copy of /repo and expects the property's check to report it.
# Not part of any check: run by hand.
cd "$(dirname "$0")/.."
grep '^fixed:' known_findings.txt | while read -r _ p h rest; do
  p=${p#property=}
  d=$(mktemp -d /tmp/regress.XXXXXX)
  git clone -q /repo $d/repo
  if ! git -C $d/repo revert -n $h >/dev/null 2>&1; then echo "CONFLICT $p $h"; rm -rf "$d"; continue; fi
  out=$(MC_REPO=$d/repo python3 check.py $p quick 2>&1); rc=$?
  echo "$p $h exit=$rc $(echo "$out" | grep -m1 VIOLATION) $(echo "$out" | head -1 | cut -c1-150)"
  rm -rf "$d"
done
