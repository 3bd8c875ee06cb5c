#!/bin/bash
# replay.sh FILE : re-executes a replay file against /repo's working tree.
# Exit 1 and the violation if it reproduces, 0 if it does not.
f=$(readlink -f "$1")
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/vp/venv/bin/python - "$f" <<'P'
import json, sys
sys.path.insert(0, ".")
from harness import common, registry
doc = json.load(open(sys.argv[1]))
try:
    sys.exit(registry.replay(doc))
finally:
    common.cleanup()
P
