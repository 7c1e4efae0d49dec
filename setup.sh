#!/bin/bash
# Nothing is installed: every check builds what it needs from /repo. This only looks that the tools are there.
set -e
for t in g++ clang++-18 z3 cvc5; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
/opt/veriftools/pyvenv/bin/python3 -c 'import z3' 
echo ok
