#!/bin/bash
# nothing to build: the checks load the sources of /repo when they run
cd "$(dirname "$0")" || exit 2
/opt/venv/bin/python -c 'import sys; sys.path.insert(0, "."); import abxsym.core, abxsym.runner'
