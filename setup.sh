#!/bin/bash
# Nothing to build: the verifier is Python and reads /repo directly.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
cvc5 --version | head -1
/opt/venv/bin/python -c 'import BTrees, persistent, ZODB, zope.interface'
