#!/bin/bash
# trybug.sh BUG CHECK...: applies a planted bug to /repo, runs the checks, restores /repo
bug=$1; shift
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
git -C /repo apply "/verif/seeded/$bug/patch.diff" || exit 2
for c in "$@"; do
  python3 /verif/run.py "$c" 2>&1 | grep -E '^(OK|VIOLATION|ERROR|\[violation\])' | head -3
done
git -C /repo checkout -q -- .
