#!/bin/bash
# nothing to install: checks the tools the framework needs
set -e
cd "$(dirname "$0")"
for t in clang++ g++ python3-vt z3 cvc5; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p evidence
python3-vt -c 'import z3'
