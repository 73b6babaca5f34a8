#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore OPENBLAS_NUM_THREADS=1 VERIF_TIER="${2:-quick}"
exec /opt/veriftools/pyvenv/bin/python -m symx.runner "$1" --tier "${2:-quick}" "${@:3}"
