#!/bin/bash
# Nothing to compile: check that the interpreter and libraries the checks use are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
exec "${VF_PYTHON:-/opt/venv/bin/python}" -c "import numpy, scipy; print('ready', numpy.__version__, scipy.__version__)"
