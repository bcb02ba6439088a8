#!/bin/bash
# Builds the compiled kernels of /repo's current tree once (every check rebuilds them when the sources change).
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence
PYTHONPATH=$(pwd) /opt/venv/bin/python -c "from mc import repoenv; repoenv.ensure_kernels()"
