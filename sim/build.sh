#!/bin/bash
# Build the LD_PRELOAD seam. Output goes to $1 (default: /verif/build).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out"
out=$(realpath "$out")
. /opt/vp/lib/env.sh
so=$(ls /opt/venv/lib/python3.12/site-packages/mpi4py/MPI*.so | head -1)
key=$(cat "$here/shim.c" "$here/build.sh" | sha256sum | cut -c1-16)
if [ -f "$out/libsim.so" ] && [ "$(cat "$out/libsim.key" 2>/dev/null)" = "$key" ]; then exit 0; fi
tmp=$(mktemp -d "$out/tmp.XXXXXX")
nm -D --undefined-only "$so" /lib/x86_64-linux-gnu/libfftw3_mpi.so.3 | awk '$1=="U"{print $2}' | grep '^MPI_' | sort -u > "$tmp/need"
gcc -O1 -g -fPIC -w -I/usr/lib/x86_64-linux-gnu/openmpi/include -c -o "$tmp/shim.o" "$here/shim.c"
nm --defined-only "$tmp/shim.o" | awk '{print $3}' | grep '^MPI_' | sort -u > "$tmp/have"
comm -23 "$tmp/need" "$tmp/have" > "$tmp/miss"
{ echo 'void sim_unimpl(const char*);'; while read -r f; do echo "int $f(void) { sim_unimpl(\"$f\"); return 16; }"; done < "$tmp/miss"; } > "$tmp/stubs.c"
gcc -O1 -g -fPIC -shared -w -o "$tmp/libsim.so" "$tmp/shim.o" "$tmp/stubs.c" -ldl -L/usr/lib/x86_64-linux-gnu -lmpi
mv "$tmp/libsim.so" "$out/libsim.so"
echo "$key" > "$out/libsim.key"
rm -rf "$tmp"
