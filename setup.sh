#!/bin/bash
# Nothing to prebuild: every check rebuilds its IR and native objects from
# /repo's working tree.  This only makes sure the tools are there.
set -e
cd "$(dirname "$0")"
clang++-18 --version >/dev/null
opt-18 --version >/dev/null
llvm-link-18 --version >/dev/null
/opt/veriftools/pyvenv/bin/python3 -c 'import z3, sympy; import dv.engine, dv.contracts, dv.solver, dv.build'
mkdir -p evidence/replay
echo ok
