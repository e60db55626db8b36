#!/bin/bash
# all demos on the unchanged tree
bash /opt/vp/build.sh >/tmp/clean.log 2>&1 || echo BUILD FAILED
for d in ${@:-/verif/seeded/*/}; do
  d=$(readlink -f $d)
  (cd /repo && bash $d/demo.sh >/tmp/cd.log 2>&1)
  rc=$?
  echo "$(basename $d) exit $rc"
done
