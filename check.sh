#!/bin/bash
# check.sh PROPERTY [runner options]  -- runs one property's simulation against /repo's working tree
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$VERIF_REPO/src:$PWD"
export PYTHONHASHSEED="${VERIF_HASHSEED:-0}" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg JAX_PLATFORMS=cpu
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export PYTHONWARNINGS=ignore LC_ALL=C.UTF-8 TZ=UTC
unset LD_PRELOAD VERIF_PRELOADED
exec /opt/venv/bin/python -m sim.runner "$@"
