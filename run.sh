#!/bin/sh
# run.sh <property> [args]: one check against /repo's working tree
cd "$(dirname "$0")" || exit 3
export JAX_PLATFORMS=cpu PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore -m vlib.main "$@"
