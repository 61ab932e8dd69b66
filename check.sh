#!/bin/bash
# usage: check.sh <property id> <quick|thorough>
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=1 \
    MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg PYTHONPATH= PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -u -m pbt.run "$1" "${2:-${VERIF_TIER:-quick}}"
