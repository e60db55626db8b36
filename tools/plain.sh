#!/bin/sh
# plain.sh EXE CASE [seed file]: default-input run of a harness on the plain build, verbose
cd /verif && X=$(python3 - "$1" <<'P'
import sys; sys.path.insert(0,'/verif/engine'); sys.path.insert(0,'/verif')
import props, build
e=props.EXES[sys.argv[1]]
print(build.link(e["src"], e["lib"], "plain", e.get("libs",())))
P
) && SE_VERBOSE=1 SE_LOUD=1 $X $2 ${3:-/dev/null} /tmp/plain.out; sort /tmp/plain.out | uniq -c | sort -rn | head -${N:-15}
