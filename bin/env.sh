# Environment of every simulated run (sourced by the commands in this folder)
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
export DST_REPO="${DST_REPO:-/repo}"
export PYTHONPATH="$DST_REPO:$VERIF_DIR"
export MPLBACKEND=Agg MPLCONFIGDIR="${MPLCONFIGDIR:-/tmp/.dst-mpl-$(id -u)}"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export TZ="${DST_TZ:-UTC}" PYTHONHASHSEED="${DST_HASHSEED:-0}" PYTHONDONTWRITEBYTECODE=1
export PYTHONWARNINGS=ignore
PY="${DST_PYTHON:-/opt/venv/bin/python}"
