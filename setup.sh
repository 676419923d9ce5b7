#!/bin/bash
# Checks that the tools the checks need are here and the specifications parse. Everything is built per check.
set -e
cd "$(dirname "$0")"
mkdir -p evidence out
for t in g++ java python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3 - <<'P'
import sys; sys.dont_write_bytecode = True; sys.path[:0] = ['.', 'lib']
from checks import REGISTRY
print(len(REGISTRY), 'checks registered')
P
