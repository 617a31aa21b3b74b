#!/bin/bash
# usage: check.sh <property id>     (VERIF_TIER, VERIF_SEED from the environment)
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg JAX_PLATFORMS=cpu
export OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=2 TF_CPP_MIN_LOG_LEVEL=3
exec /opt/venv/bin/python "$here/harness/core.py" "$1"
