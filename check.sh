#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export PYTHONPATH="$here/sa:$here/sa/checks" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /usr/local/bin/python3-vt "$here/sa/checks/$(echo "$1" | tr 'A-Z' 'a-z').py"
