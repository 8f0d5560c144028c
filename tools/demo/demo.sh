#!/bin/bash
# Builds demo.cpp (beside this file) against /repo's built library and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -w -I"$repo/_build/include" -I/usr/include/hdf5/serial "$here/demo.cpp" "$repo/_build/liboxsx.a" \
    -larmadillo -lgsl -lgslcblas -lhdf5_serial_cpp -lhdf5_serial -o "$tmp/demo" || exit 99
cd "$tmp" && timeout 120 ./demo
