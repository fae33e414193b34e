#!/bin/bash
# usage: bash run.sh <PROPERTY-ID> [quick|thorough] [--replay FILE] [--law NAME] [--seed N]
# Runs one property's generated-input search against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 JAX_PLATFORMS=cpu
export HDF5_USE_FILE_LOCKING=FALSE PYTHONWARNINGS=ignore
unset PYTHONPATH
id=$1; shift
scratch=$(mktemp -d "${TMPDIR:-/tmp}/pv.$id.XXXXXX") || exit 2
export PV_SCRATCH=$scratch MPLCONFIGDIR=$scratch/mpl
mkdir -p "$MPLCONFIGDIR"
trap 'rm -rf "$scratch"' EXIT
cd "$here" || exit 2
/opt/venv/bin/python -X faulthandler -m pv.main "$id" "$@"
