#!/bin/bash
# usage: fix.sh "message" : build, run the repository's tests, commit as a fix
set -e
bash /opt/vp/build.sh >/tmp/fixbuild.log 2>&1 || { tail -30 /tmp/fixbuild.log; exit 1; }
bash /opt/vp/test.sh /tmp/fixtest.json >/tmp/fixtest.log 2>&1 || { tail -40 /tmp/fixtest.log; exit 1; }
git -C /repo add -u
git -C /repo commit -qm "fix: $1"
git -C /repo log --oneline | head -1
