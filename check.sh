#!/bin/bash
# bash /verif/check.sh C17 [quick|thorough]
unset PYTHONPATH PYTHONHOME KUBECONFIG
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LANG=C.UTF-8 HOME=${HOME:-/root}
export VERIF_SEED=${VERIF_SEED:-1}
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -B harness/main.py "$1" --tier "${2:-${VERIF_TIER:-quick}}"
