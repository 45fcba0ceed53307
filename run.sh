#!/bin/bash
# run.sh Cxx [quick|thorough]     decide one property against /repo's working tree
# run.sh --replay FILE            re-execute a recorded violation
cd "$(dirname "$0")" || exit 2
# Byte code goes to a throwaway directory: a stale .pyc must not stand in for
# the source.
PYC=$(mktemp -d)
trap 'rm -rf "$PYC"' EXIT
export PYTHONPYCACHEPREFIX="$PYC" PYTHONDONTWRITEBYTECODE=1
export PYTHONHASHSEED="${PYTHONHASHSEED:-0}" TZ=UTC LC_ALL=C.UTF-8
/opt/venv/bin/python -W ignore check.py "$@"
