#!/bin/bash
# usage: run_check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec python3-vt -m symx.runner "$1" --tier "${2:-${VERIF_TIER:-quick}}" "${@:3}"
