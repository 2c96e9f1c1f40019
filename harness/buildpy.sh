#!/bin/bash
# buildpy.sh OUTDIR : the shared library the Python binding loads, from /repo's current working tree.
set -e
O=${1:?outdir}; R=${REPO:-/repo}; H=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$O/so"
CF="-g -O1 -fPIC -U_FORTIFY_SOURCE -pthread -I$R/include -w"
pids=()
for s in $(ls "$R"/src/*.c | grep -v -e utests.c -e greshunkel_test.c) "$H/pylive.c"; do gcc $CF -c -o "$O/so/$(basename "$s" .c).o" "$s" & pids+=($!); done
for p in "${pids[@]}"; do wait "$p"; done
W=""
for f in malloc calloc realloc free strdup strndup; do W="$W -Wl,--wrap=$f"; done
gcc -shared -pthread -o "$O/lib38moths.so" "$O"/so/*.o $W -lm -lrt
