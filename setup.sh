#!/bin/bash
# Nothing is installed; this only proves that the framework builds offline.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/vp/venv/bin/python -c 'from harness import common; common.build("solver_sim", "simio", "_vmecpp", "_iosim")'
