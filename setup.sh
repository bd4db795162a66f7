#!/bin/sh
# Nothing to build: the checks import /repo/python/src directly.  Proves that
# the simulator and the code under test import and one simulation runs.
cd "$(dirname "$0")" || exit 2
exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python check.py run C01 --runs 2 --workers 1
