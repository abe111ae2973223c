#!/bin/bash
# Nothing to build: the checks are Python and import the code from /repo.
# Only verify that the interpreter and the harness are usable.
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
"$PY" -B -c "
import ast, glob, numpy, scipy, numba, libdlf
for f in glob.glob('harness/**/*.py', recursive=True):
    ast.parse(open(f).read(), f)
print('setup ok')
"
