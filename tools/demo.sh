#!/bin/bash
# builds demo.cc against the library in /repo/_build and runs it: exit 0 when the property holds for the demonstrated case
set -e
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
libs="$(grep 'LINK_LIBRARIES' _build/build.ninja | grep ' libnimble.a' | head -1 | sed 's/.*LINK_LIBRARIES = //')"
src="$PWD"
cd _build
g++ -std=c++14 -O0 -DNDEBUG -fno-access-control -w -DNIMBLE_HAVE_EXODUS -DNIMBLE_HAVE_KOKKOS -DNIMBLE_HAVE_MPI -DNIMBLE_HAVE_TRILINOS \
  -I"$here" -I"$src/src" -I"$src/tpl" -I"$src/src/contact" -I"$src/src/integrators" -isystem /usr/lib/x86_64-linux-gnu/openmpi/include -isystem /usr/include/trilinos \
  "$here/demo.cc" -o "$tmp/demo" $libs
cd "$tmp"
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
set +e
timeout 120 $DEMO_LAUNCH "$tmp/demo" </dev/null
rc=$?
[ $rc -eq 0 ] || { echo "demo: property broken (exit $rc)"; exit 1; }
exit 0
