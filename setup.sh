#!/bin/bash
# Nothing to compile: the checks import the code under test from /repo's working tree at run time.
cd "$(dirname "$0")" || exit 3
mkdir -p evidence
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -B -c "import sys; sys.path.insert(0, '${EDULINT_REPO:-/repo}'); import edulint, pylint, flake8; print('ok')"
