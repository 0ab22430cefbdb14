#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 \
       OPENBLAS_NUM_THREADS=1 MPLCONFIGDIR=/tmp HOME="${HOME:-/root}"
exec /opt/venv/bin/python -W ignore -m engine.run "$1" --tier "${2:-quick}" "${@:3}"
