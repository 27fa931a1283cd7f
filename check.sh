#!/bin/bash
# run one check: check.sh <property-id> [tier]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
[ -n "$2" ] && export VERIF_TIER="$2"
exec python3 -m checks.run "$1"
