#!/bin/bash
# fixcommit.sh "fix: message": syncs release/, builds, runs the stable tests, commits the working tree of /repo.
set -euo pipefail
git -C /repo checkout -q -- release cee-json/release
python3 "$(dirname "$0")/sync_release.py"
bash /opt/vp/build.sh > /tmp/fixbuild.log 2>&1 || { tail -20 /tmp/fixbuild.log; exit 1; }
bash /opt/vp/test.sh /tmp/fixtest.json > /tmp/fixtest.log 2>&1
[ "$(grep -c ^PASS /tmp/fixtest.log)" = 4 ] || { grep -E '^(PASS|FAIL)' /tmp/fixtest.log; exit 1; }
git -C /repo commit -qam "$1"
git -C /repo log --oneline -1
git -C /repo status --short
