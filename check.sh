#!/bin/bash
# usage: check.sh PROP quick|thorough
. /opt/vp/env.sh
cd "$(dirname "$0")"
export PYTHONWARNINGS=ignore
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
exec /opt/venv/bin/python -m pv.run "$1" "$2"
