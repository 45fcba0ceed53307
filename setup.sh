#!/bin/bash
# Nothing to compile: check that interpreter, library and framework load.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '/repo'); sys.path.insert(0, '.')
import verktyg, vf.engine, vf.gen
print('verktyg from', verktyg.__file__)
"
