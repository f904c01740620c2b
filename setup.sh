#!/bin/bash
# Checks that the tools the checks need are present; nothing has to be built.
set -e
for tool in clang++-18 opt-18 g++ python3-vt kissat; do
	command -v "$tool" > /dev/null || { echo "missing: $tool" >&2; exit 1; }
done
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
mkdir -p /verif/evidence
