#!/bin/bash
# build_compute.sh REPO PKG: builds roughpy.compute, which the official build leaves out, from its sources into PKG.
R=$1; P=$2
VERIF=$(cd "$(dirname "$0")/.." && pwd)
W=$VERIF/build/compute
mkdir -p "$W" "$P"
SRC="$R/roughpy/compute/_src/*.c $R/roughpy/compute/_src/*.cpp $R/core/src/fnv1a_hash.c"
sum=$( (cat "$0"; echo "$P"; find "$R/roughpy/compute/_src" "$R/roughpy_compute" "$R/pycore" "$R/core/src/fnv1a_hash.c" \
    "$R/core/include/roughpy/core/macros.h" "$R/core/include/roughpy/core/fnv1a_hash.h" -type f | sort | xargs md5sum) | md5sum)
SO=$P/_rpy_compute_internals.so
[ -f "$SO" ] && [ "$(cat "$W/sum" 2>/dev/null)" = "$sum" ] && exit 0
rm -f "$W"/*.o "$SO" "$W/sum"
INC="-I$VERIF/lib/inc -I$R -I$R/pycore/include -I$R/core/include -I$R/platform/include $(/opt/roughpy-venv/bin/python -c 'import sysconfig,numpy;print("-I"+sysconfig.get_paths()["include"],"-I"+numpy.get_include())')"
pids=()
for f in $SRC; do
    case $f in *.c) C="gcc -std=c17";; *) C="g++ -std=c++20";; esac
    $C -O2 -fPIC -fvisibility=hidden -c $INC "$f" -o "$W/$(basename "$f").o" & pids+=($!)
done
for p in "${pids[@]}"; do wait "$p" || exit 1; done
g++ -shared "$W"/*.o -o "$SO" && echo "$sum" > "$W/sum"
