#!/bin/bash
# Nothing to build: sanity-check that the interpreter, the code under test and Hypothesis are importable.
cd "$(dirname "$(realpath "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c "from pbt import env; env.setup_path(); import hypothesis, numpy, numba, scipy; print('hypothesis', hypothesis.__version__)"
