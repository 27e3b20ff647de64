#!/bin/bash
# check.sh <property id> [obligation substring] [--thorough]
D="$(cd "$(dirname "$0")" && pwd)" || exit 2
. /opt/vp/env.sh >/dev/null 2>&1
cd "$D" || exit 2
export JAX_PLATFORMS=cpu TF_CPP_MIN_LOG_LEVEL=3 PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
exec python check.py "$@"
