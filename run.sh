#!/bin/bash
# usage: run.sh <property id> [quick|thorough]
# Runs one check against the code in ${EDULINT_REPO:-/repo}.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LANG=C.UTF-8
unset PYTHONPATH
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
exec /opt/venv/bin/python -B -m mc.main "$1"
