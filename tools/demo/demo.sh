#!/bin/bash
# usage: demo.sh   (cwd: a built source tree); exit 0: property holds in this demonstration
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -r -- "$T"' EXIT
ln -s "$R" "$T/cligen"
SO=$(ls "$R"/libcligen.so.* | head -1)
gcc -g -w -D_GNU_SOURCE -DHAVE_CONFIG_H -I"$T" -I"$R" -I"$D" -o "$T/demo" "$D/demo.c" "$SO" || exit 2
cd "$T" || exit 2
LD_LIBRARY_PATH="$R" timeout 60 ./demo </dev/null
