#!/bin/bash
# bash run.sh C01 [--tier quick|thorough]   |   bash run.sh --replay FILE   |   bash run.sh --setup
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLCONFIGDIR="${MPLCONFIGDIR:-$(mktemp -d /tmp/mcmpl.XXXXXX)}"
export PYTHONPATH="${MC_REPO:-/repo}:$here"
/opt/venv/bin/python -B -W ignore -m mc.main "$@"
rc=$?
case "$MPLCONFIGDIR" in /tmp/mcmpl.*) rm -rf -- "$MPLCONFIGDIR";; esac
exit $rc
