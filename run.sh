#!/bin/bash
# run.sh <property id> [--tier quick|thorough] [--part NAME] : run one check against /repo's working tree
cd "$(dirname "$0")" || exit 2
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONHASHSEED=0
export FLOWMC_SRC="${FLOWMC_SRC:-/repo/src}"
export PYTHONPATH="$FLOWMC_SRC:$PWD/lib" TQDM_DISABLE=1 TF_CPP_MIN_LOG_LEVEL=3
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset JAX_ENABLE_X64 JAX_DISABLE_JIT JAX_DEBUG_NANS
exec /opt/venv/bin/python run.py "$@"
