#!/bin/bash
# Nothing to build: the checks elaborate /repo/src directly. Fail early if a needed tool is missing.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
python3-vt -c 'import sys; sys.path.insert(0, "vlib"); import load, z3, amaranth; print("z3", z3.get_version_string(), "amaranth", amaranth.__version__)'
