#!/bin/bash
# check.sh PROPERTY [quick|thorough] [driver options]
cd "$(dirname "$0")" || exit 2
P=$1; T=${2:-${VERIF_TIER:-quick}}; shift; shift
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec python3-vt vf/driver.py "$P" --tier "$T" "$@"
