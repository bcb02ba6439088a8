#!/bin/bash
# check.sh PROPERTY [quick|thorough] [-v] [--replay FILE]
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8
unset PYTHONHOME
PYTHONPATH=$(pwd); export PYTHONPATH
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export TMPDIR=/tmp
exec /opt/venv/bin/python -m mc.common "$@"
