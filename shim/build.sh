#!/bin/bash
# compiles the simulated disk, if this is necessary
ROOT=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$ROOT/build"
if [ ! -e "$ROOT/build/shim.so" ] || [ "$ROOT/shim/shim.c" -nt "$ROOT/build/shim.so" ]; then
    T=$(mktemp "$ROOT/build/shim.XXXXXX") && gcc -O1 -Wall -fPIC -shared -o "$T" "$ROOT/shim/shim.c" -ldl && chmod 755 "$T" && mv -f "$T" "$ROOT/build/shim.so" || { rm -f "$T"; exit 2; }
fi
