#!/bin/bash
# usage: replay.sh <replay file>   exit 1 if the violation reproduces
f=$(realpath "$1"); cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=1 PYTHONPATH= PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -u -m pbt.run --replay "$f"
