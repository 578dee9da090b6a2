#!/bin/bash
# usage: run.sh PROPERTY            explore (VERIF_TIER=quick|thorough)
#        run.sh PROPERTY --replay F replay one recorded violation
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PIP_NO_INDEX=1
export SETUPTOOLS_SCM_PRETEND_VERSION=1.31.1
export LDFLAGS="-L/usr/lib/lp_solve -Wl,-rpath,/usr/lib/lp_solve" CFLAGS="-O1 -g0"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPATH PYTEST_ADDOPTS PYWR_SOLVER PYWR_SOLVER_GLPK_UNSAFE_API \
  PYWR_SOLVER_GLPK_FIXED_COSTS_ONCE PYWR_SOLVER_GLPK_FIXED_FLOWS_ONCE PYWR_SOLVER_GLPK_FIXED_FACTORS_ONCE
PY=/opt/venv/bin/python
export PYTHONPATH="/repo:$HERE"
"$PY" -m mc.build || { echo "run.sh: /repo does not build"; exit 2; }
SCRATCH=$(mktemp -d /tmp/verif-mc.XXXXXX) || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
export VERIF_SCRATCH="$SCRATCH" VERIF_HOME="$HERE"
cd "$SCRATCH" || exit 2
"$PY" -W ignore -m mc.main "$@"
exit $?
