#!/bin/bash
# bash check.sh PROPERTY quick|thorough [options]: one monitor run on /repo.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
work=$(mktemp -d /tmp/vmon_run_XXXXXX)
trap 'rm -rf "$work"' EXIT
export MPLCONFIGDIR=$work/mpl TMPDIR=$work PYTHONPYCACHEPREFIX=$work/pyc
mkdir -p "$MPLCONFIGDIR"
prop=$1; tier=$2; shift 2
cd "$work" || exit 2
/opt/venv/bin/python -W ignore "$here/vmon/run.py" "$prop" --tier "$tier" "$@"
exit $?
