#!/bin/bash
# nothing to build ahead: every check compiles the contracts with /repo's current source.  Check that the tools are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
clang++ --version >/dev/null; opt --version >/dev/null 2>&1 || opt-18 --version >/dev/null; g++ --version >/dev/null
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
python3-vt tools/mkmeta.py
