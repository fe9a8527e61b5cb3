#!/bin/sh
# nothing to build ahead of time: checks extract the IR from /repo on every run; only the tools are probed here
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
python3-vt -c 'import z3; import sys; sys.path.insert(0, "."); import irv.driver'
/usr/bin/clang++-18 --version >/dev/null
echo ok
