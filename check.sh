#!/bin/bash
# check.sh <property>: decides one property of /repo's working tree (VERIF_TIER=quick|thorough, VERIF_SEED).
cd "$(dirname "$0")" || exit 2
bash ./build.sh || { echo "ERROR cannot build the engine"; exit 2; }
exec ./engine/gosym -prop "$1" ${2:+-tier "$2"}
