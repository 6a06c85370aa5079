#!/bin/bash
# Builds demo.cpp with the units of the repository in the current directory and runs it in a scratch directory.
set -u
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
tar xzf "$H/kit.tgz" -C "$W" || exit 99
export R W
cc() {
    o="$W/obj/$(echo "$1" | tr / _).o"
    g++ -std=c++17 -O0 -w -I "$R" -I "$W/shim/include" -I "$W/lib" -c "$1" -o "$o" || touch "$W/failed"
}
export -f cc
mkdir "$W/obj"
{ echo "$H/demo.cpp"; echo "$W/shim/src/json.cpp"; if [ -f "$H/units.txt" ]; then cat "$H/units.txt"; else cat "$W/hints/e2e.txt"; fi; } | grep -v '^#' | grep . |
    xargs -P 8 -I{} bash -c 'cc "{}"'
[ -e "$W/failed" ] && exit 98
g++ -o "$W/demo" "$W"/obj/*.o -lpthread || exit 97
mkdir "$W/run"
PBT_TMP="$W/run" timeout 120 "$W/demo"
rc=$?
echo "demo ended with $rc"
exit $rc
