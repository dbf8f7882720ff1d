#!/bin/sh
# Nothing to build: the simulator is Python and imports /repo's working tree. Check the tools are there.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c "import sympy, numpy, scipy, cvxopt, picos, pandas, sys; print('setup ok', sys.version.split()[0], sympy.__version__)"
mkdir -p evidence replays
