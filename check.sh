#!/bin/sh
# check.sh <property> <tier>
cd "$(dirname "$0")" || exit 2
exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python check.py run "$1" --tier "${2:-quick}"
