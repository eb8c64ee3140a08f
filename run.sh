#!/bin/bash
# run.sh <property> [--tier quick|thorough] [--replay file]
cd "$(dirname "$0")" || exit 2
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
export PYTHONPATH="$PWD:${VF_REPO:-/repo}:${VF_REPO:-/repo}/irreptables"
exec /opt/venv/bin/python -m vf.main "$@"
