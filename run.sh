#!/bin/sh
# run.sh PROPERTY TIER
cd "$(dirname "$0")" || exit 2
PATH=/opt/jy/bin:/opt/veriftools/bin:$PATH
PYTHONHASHSEED=0 exec python3-vt check.py "$1" --tier "$2"
