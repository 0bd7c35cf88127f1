#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [more args]   (run from /verif)
# Runs one property's monitors against /repo's current working tree.
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift; [ $# -gt 0 ] && shift
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$here:${RV_REPO:-/repo}:${RV_REPO:-/repo}/torchlie:${RV_REPO:-/repo}/torchkin"
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= MPLCONFIGDIR="${TMPDIR:-/tmp}/rv-mpl"
export VERIF_TIER="$tier"
cd "$here" && exec /opt/venv/bin/python -m rv.run "$prop" --tier "$tier" "$@"
