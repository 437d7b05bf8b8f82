#!/bin/bash
# Builds what the checks need from /repo's working tree: the RoughPy module and the importable package.
set -e
VERIF=$(cd "$(dirname "$0")/.." && pwd)
REPO=${VERIF_REPO:-/repo}
mkdir -p "$VERIF/build"
exec 9> "$VERIF/build/lock"
flock 9
/opt/veriftools/pyvenv/bin/python3 "$VERIF/bin/touch_changed.py" "$REPO" "$VERIF/build/srcsum.json"
if ! "$VERIF/bin/build.sh" > "$VERIF/build/log" 2>&1; then
    tail -n 60 "$VERIF/build/log"
    echo "build of $REPO failed" >&2
    exit 3
fi
P=$VERIF/build/pkg/roughpy
mkdir -p "$P"
rsync -a --delete --checksum --exclude='*.so' --exclude=/src --exclude=__pycache__ --exclude=ocl_kernels \
    --exclude='compute/_src' --exclude='*.dll' "$REPO/roughpy/" "$P/"
SO=_roughpy.cpython-312-x86_64-linux-gnu.so
ln -sfn "$VERIF/build/rel/roughpy/$SO" "$P/$SO"
"$VERIF/bin/build_compute.sh" "$REPO" "$P/compute" >> "$VERIF/build/log" 2>&1 || echo "roughpy.compute did not build, see build/log" >&2
/opt/veriftools/pyvenv/bin/python3 "$VERIF/bin/touch_changed.py" --record "$REPO" "$VERIF/build/srcsum.json"
