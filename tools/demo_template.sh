#!/bin/bash
# Builds a small program against the sources of the current directory (/repo) and runs it: exit 0 when the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
. /opt/vp/env.sh
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
g++ -std=gnu++17 -O1 -w -DNDEBUG -DMIM_SOLVERS_WITH_PROXQP -I"$R/include" -I"$D" -isystem $PREFIX/include -isystem $PREFIX/include/eigen3 \
  "$D/demo.cpp" "$R"/src/{sqp,csqp,csqp_proxqp,ddp,fddp,kkt}.cpp "$R/src/utils/callbacks.cpp" -o "$W/demo" -L$PREFIX/lib -Wl,-rpath,$PREFIX/lib -lcrocoddyl || exit 2
LD_LIBRARY_PATH=$PREFIX/lib timeout 120 "$W/demo"
