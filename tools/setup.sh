#!/bin/bash
# nothing to build: checks that what the checks need is there
cd "$(dirname "$0")/.." || exit 1
mkdir -p evidence out
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python -W ignore -c "import vlib.runner; print(vlib.runner.TOOL)"
