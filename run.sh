#!/bin/bash
# usage: run.sh <PROPERTY_ID> [--tier quick|thorough] [--replay FILE] [...]
# Runs one check against /repo's current working tree.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONPATH="${NEPS_SRC:-/repo}:$here:$here/vendor"
export VERIF_HOME="$here"
# short lock polls: the scheduler turns every poll into a scheduling point
for r in TRIAL SEED_SNAPSHOT OPTIMIZER_INFO OPTIMIZER_STATE GLOBAL_ERR; do
  export "NEPS_${r}_FILELOCK_POLL=0.0005"
done
export MPLCONFIGDIR="${TMPDIR:-/tmp}/verif-mpl-$$"
trap 'rm -rf "$MPLCONFIGDIR"' EXIT
cd "$here" || exit 2
/opt/venv/bin/python -W ignore -m vlib.main "$@"
