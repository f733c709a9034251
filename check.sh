#!/bin/bash
# bash check.sh PROPERTY TIER [--replay FILE]
cd "$(dirname "$0")" || exit 3
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 TF_CPP_MIN_LOG_LEVEL=3
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1 --xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true"
exec /opt/venv/bin/python check.py "$@"
