#!/bin/bash
# Pure Python: nothing to build; check that the interpreter and the explorer load.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
mkdir -p evidence out
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python -c "import mc.engine, mc.refs, numpy, jax, h5py; print('ok')"
