#!/bin/bash
# bash run.sh ID [quick|thorough] : run one check against /repo's working tree
here=$(cd "$(dirname "$0")" && pwd)
id=$1
[ -n "$2" ] && export VERIF_TIER=$2
. /opt/vp/env.sh
cd "$here" || exit 3
export PYTHONPATH="$here" PYTHONDONTWRITEBYTECODE=1 VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
# generous watchdog: firing is an error exit (inconclusive), never a violation
exec timeout -k 10 ${VERIF_TIMEOUT:-850} python -X faulthandler -m "checks.$id"
