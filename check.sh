#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [options]
# Decides one property by symbolic execution of /repo's current source.
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="${VERIF_REPO:-/repo}/py" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 MPLBACKEND=Agg
export VERIF_SEED="${VERIF_SEED:-1}"
unset RR_TEMPLATE_DIR
# numba's on-disk and astropy's caches stay inside a private scratch directory
SCR=$(mktemp -d /tmp/symrr.XXXXXX) || exit 2
export SYMRR_SCRATCH="$SCR" HOME="$SCR" XDG_CACHE_HOME="$SCR" XDG_CONFIG_HOME="$SCR"
if [ "$1" = "--selfcheck" ]; then
  /opt/venv/bin/python -W ignore symrr/selfcheck.py; RC=$?
  rm -rf -- "$SCR"; exit $RC
fi
P=$1; T=${2:-${VERIF_TIER:-quick}}; shift; shift
/opt/venv/bin/python -W ignore symrr/run.py "$P" --tier "$T" "$@"
RC=$?
rm -rf -- "$SCR"
exit $RC
