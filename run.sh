#!/bin/bash
# usage: run.sh C01 [--tier quick|thorough] ...
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python -c 'import sys; from abxsym.runner import main; sys.exit(main())' "$@"
