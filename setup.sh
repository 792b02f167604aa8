#!/bin/bash
# Offline, once, in a fresh sandbox: compiles the simulated-disk shim (see sim/disk.c) when present.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
mkdir -p build evidence replays
for src in sim/*.c; do
  [ -e "$src" ] || continue
  out="build/$(basename "${src%.c}").so"
  gcc -O1 -shared -fPIC -o "$out" "$src" -ldl -lpthread || exit 2
done
exit 0
