#!/bin/bash
# Bring /repo's in-place extensions up to date; nothing else needs building.
HERE=$(cd "$(dirname "$0")" && pwd)
export LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC PYTHONDONTWRITEBYTECODE=1 PIP_NO_INDEX=1
export SETUPTOOLS_SCM_PRETEND_VERSION=1.31.1
export LDFLAGS="-L/usr/lib/lp_solve -Wl,-rpath,/usr/lib/lp_solve" CFLAGS="-O1 -g0"
PYTHONPATH="$HERE" /opt/venv/bin/python -m mc.build
