#!/bin/bash
# check.sh <property id> : one check, rebuilt from /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/vp/venv/bin/python check.py "$1"
