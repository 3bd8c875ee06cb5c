#!/bin/bash
# tools_kit.sh DIR : lays a self-contained copy of the build files and
# simulators beside the demonstration in DIR (planted bugs only; no check
# uses it).
set -e
cd "$(dirname "$0")"
d=$1/kit
mkdir -p "$d/harness"
cp -r CMakeLists.txt sim shim cases "$d/"
cp harness/__init__.py harness/common.py harness/solver.py "$d/harness/"
cat > "$1/demo.sh" <<'D'
#!/bin/bash
# Exit 0: the property holds in the demonstrated situation; 1: it is broken.
here=$(dirname "$(readlink -f "$0")")
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
export VERIF_BUILD=${DEMO_BUILD:-$tmp/b} VMECPP_REPO=$PWD VERIF_EVIDENCE=$tmp/ev TMP=$tmp PYTHONDONTWRITEBYTECODE=1
/opt/vp/venv/bin/python "$here/demo.py"
D
chmod +x "$1/demo.sh"
