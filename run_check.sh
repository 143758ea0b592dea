#!/bin/bash
# run_check.sh <property> [quick|thorough] [runner options]
. /opt/vp/env.sh
cd "$(dirname "$(readlink -f "$0")")" || exit 2
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
export PYTHONWARNINGS=ignore
exec "$PY" -m simlib.runner "$id" --tier "$tier" "$@"
