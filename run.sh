#!/bin/bash
# usage: run.sh CHECK_MODULE [options]   e.g. run.sh c01 --tier thorough
cd "$(dirname "$0")" || exit 2
mod=$1; shift
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -c "
import sys
sys.path.insert(0, '.')
import symx
from symx import runner
sys.exit(runner.main('checks.$mod', sys.argv[1:]))" "$@"
