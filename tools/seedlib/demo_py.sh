#!/bin/bash
# imports the built extension module from a scratch directory and runs demo.py on it
set -u
HERE=$(cd "$(dirname "$0")" && pwd); REPO=$PWD
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
SO=$(ls "$REPO"/target/debug/libdess_pyo3.so "$REPO"/target/debug/deps/libdess_pyo3*.so 2>/dev/null | head -1)
[ -n "$SO" ] || exit 3
cp "$SO" "$W/dess_pyo3.so"; cp "$HERE/demo.py" "$W/demo.py"
cd "$W" && timeout 60 /usr/bin/python3.12 demo.py
