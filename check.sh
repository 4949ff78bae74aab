#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
# Runs one property's check against /repo's working tree (imported from /repo/src).
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export VERIF_SEED="${VERIF_SEED:-1}"
scratch="$(mktemp -d /tmp/verif_XXXXXXXX)"
trap 'rm -rf -- "$scratch"' EXIT
mkdir -p "$scratch/home" "$here/evidence"
export VERIF_SCRATCH="$scratch" HOME="$scratch/home" TMPDIR="$scratch" MPLBACKEND=Agg MPLCONFIGDIR="$scratch/mpl"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="/repo/src:$here/harness" OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
cd "$scratch" || exit 2
/opt/venv/bin/python -W ignore -X utf8 "$here/harness/main.py" "$1"
exit $?
