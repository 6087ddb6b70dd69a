#!/bin/bash
# usage: run.sh <check> <quick|thorough> [options]; runs one check against /repo's working tree
here="$(cd "$(dirname "$0")" && pwd)"
check="$1"; tier="$2"; shift 2
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export TMPDIR="$(mktemp -d /tmp/verif_run.XXXXXX)"
export MPLCONFIGDIR="$TMPDIR"
trap '/bin/rm -rf "$TMPDIR"' EXIT
cd "$here" && /opt/venv/bin/python -m vlib.runner "$check" --tier "$tier" "$@"
