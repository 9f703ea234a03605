#!/bin/sh
# nothing to build: the checks compile what they need from /repo on every run
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
python3-vt -c 'import z3' && command -v clang >/dev/null
