#!/bin/bash
# ./run.sh <property> [--tier quick|thorough] [--replay file]
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export HOME="${HOME:-/root}" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg
unset DSPS_DRN JAX_ENABLE_X64 PYTHONSTARTUP
# gitignored file that setuptools_scm normally writes; /opt/vp/build.sh writes the same
[ -f /repo/dsps/_version.py ] || echo "__version__ = '0.4.8'" > /repo/dsps/_version.py
SCR=$(mktemp -d /tmp/mcscratch.XXXXXX) || exit 2
trap 'rm -rf -- "$SCR"' EXIT
export PYTHONPYCACHEPREFIX="$SCR/pyc" MC_SCRATCH="$SCR" TMPDIR="$SCR" MPLCONFIGDIR="$SCR"
export PYTHONPATH="/repo:$PWD"
/opt/venv/bin/python -m mc.main "$@"
