#!/bin/bash
# check.sh PID [quick|thorough] [options]: one property's check against /repo's current tree.
here=$(cd "$(dirname "$0")" && pwd)
export LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$here/lib:$here/checks"
export OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 OMP_NUM_THREADS="${OMP_NUM_THREADS:-1}" MPLBACKEND=Agg
export PIP_NO_INDEX=1 HF_HUB_OFFLINE=1
pid=$1; shift
exec /opt/venv/bin/python -X faulthandler "$here/lib/run.py" "$pid" "$@"
