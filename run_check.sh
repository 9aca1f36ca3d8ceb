#!/bin/bash
# usage: run_check.sh <PROPERTY-ID> [quick|thorough]
# Decides one property: TLC on the specification, then conformance of /repo.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export VERIF_SEED="${VERIF_SEED:-1}"
work="$(mktemp -d /tmp/verif.XXXXXX)" || exit 2
trap 'rm -rf -- "$work"' EXIT
export VERIF_WORK="$work"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR="$work/mpl"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
unset PYTHONPATH NUMBA_DISABLE_JIT
mkdir -p "$work/mpl"
cp -r /opt/vp/work/mpl/. "$work/mpl/" 2>/dev/null
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
cd "$here" || exit 2
"$py" -m harness.main "$id"
