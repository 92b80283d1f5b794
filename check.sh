#!/bin/sh
# check.sh <property> [quick|thorough]
cd "$(dirname "$0")/harness" && PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 exec /opt/venv/bin/python check.py "$@"
