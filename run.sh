#!/bin/bash
# run.sh check|replay|selftest ARGS...   (always runs against /repo's working tree)
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME=/root LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= HF_HUB_OFFLINE=1
export PYTHONHASHSEED="${PYTHONHASHSEED:-0}"
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$HERE:$VERIF_REPO:$VERIF_REPO/projects/nerf"
unset FB_TEST INSIDE_RE_WORKER CONDA_BUILD_STATE FAIR_ENV_CLUSTER PYTORCH3D_INTERACTIVE_TESTING
cd "$HERE" || exit 2
exec /opt/venv/bin/python -W ignore -m sim.cli "$@"
