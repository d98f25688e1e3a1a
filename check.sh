#!/bin/bash
# check.sh PROPERTY TIER : runs one check from /verif against /repo
cd "$(dirname "$0")" || exit 2
export VERIF_TIER="$2"
exec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m dst.run "$1" --tier "$2"
