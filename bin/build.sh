#!/bin/bash
# Builds RoughPy's libraries and Python module from /repo's working tree into /verif/build/rel.
# usage: build.sh [target...]
set -e
VERIF=$(cd "$(dirname "$0")/.." && pwd)
REPO=${VERIF_REPO:-/repo}
B=$VERIF/build/rel
export HOME=/root LANG=C.UTF-8
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CC=gcc CXX=g++
export CCACHE_DIR=$VERIF/build/ccache CCACHE_MAXSIZE=3G CCACHE_SLOPPINESS=pch_defines,time_macros
unset CMAKE_TOOLCHAIN_FILE VIRTUAL_ENV PYTHONPATH LD_LIBRARY_PATH
mkdir -p "$B"
cmake -S "$REPO" -B "$B" -G Ninja \
    -DCMAKE_BUILD_TYPE=Release \
    -DCMAKE_CXX_COMPILER_LAUNCHER=ccache \
    -DROUGHPY_NO_VCPKG=ON \
    -DROUGHPY_BUILD_TESTS=OFF \
    -DROUGHPY_BUILD_TEST_PYTHON_EMBED=OFF \
    -DROUGHPY_BUILD_PYLIB=ON \
    -DROUGHPY_EXPERIMENTAL=ON \
    -DROUGHPY_USE_CCACHE=OFF \
    -DFETCHCONTENT_FULLY_DISCONNECTED=ON \
    -DCMAKE_PREFIX_PATH=/opt/vp/cmake \
    -DCMAKE_PROJECT_RoughPy_INCLUDE=/opt/vp/cmake/leave-out.cmake \
    -DPCGRandom_INCLUDE_DIRS=/opt/vp/cmake/include \
    -DPython_ROOT_DIR=/opt/roughpy-venv \
    -DPython_EXECUTABLE=/opt/roughpy-venv/bin/python > "$B/cmake.log" 2>&1 || { cat "$B/cmake.log"; exit 1; }
ninja -C "$B" -j8 "${@:-RoughPy_PyModule}"
