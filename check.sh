#!/bin/bash
# usage: check.sh <property id> [--replay FILE]      (VERIF_SEED, VERIF_TIER from the environment)
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
scratch=$(mktemp -d /tmp/vpbt.XXXXXXXX) || exit 2
trap 'rm -rf "${scratch:?}"' EXIT
export VERIF_SCRATCH=$scratch VERIF_REPO=${VERIF_REPO:-/repo}
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=$scratch/pyc PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg MPLCONFIGDIR=$scratch/mpl
export HYPOTHESIS_STORAGE_DIRECTORY=$scratch/hyp
export PYTHONPATH=$VERIF_REPO:$here
cd "$scratch" || exit 2
/opt/venv/bin/python "$here/check.py" "$@"
