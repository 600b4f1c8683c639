#!/bin/bash
# usage: check.sh <property id> [quick|thorough]   -- run in /verif
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; [ -n "$2" ] && export VERIF_TIER="$2"
export VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
export PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMEXPR_MAX_THREADS=8 NUMEXPR_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1
PY=/opt/venv/bin/python
scratch="$(mktemp -d "${TMPDIR:-/tmp}/vmon.$id.XXXXXX")" || exit 3
export VMON_SCRATCH="$scratch" HOME="$scratch/home" VMON_ROOT="$here"
mkdir -p "$HOME"
export PYTHONPATH="${VMON_REPO:-/repo}:$here"
cd "$scratch" || exit 3
"$PY" -m vmon.main "$id"
rc=$?
cd /
case "$scratch" in */vmon.*) rm -rf -- "$scratch";; esac
exit $rc
