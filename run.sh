#!/bin/bash
# usage: bash run.sh PROPERTY [quick|thorough]   (VERIF_SEED selects the random choices)
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B -m mon.runner "$@"
