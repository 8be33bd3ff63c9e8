#!/bin/bash
# nothing to install: confirm that the tools the checks use are there and that the crate builds as IR and natively
set -e
cd "$(dirname "$0")"
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
python3-vt engine/irgen.py "$t"
