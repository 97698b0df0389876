#!/bin/bash
# run with the repository as working directory, after its build
export BSDCONV_PATH=$PWD/build LD_LIBRARY_PATH=$PWD/build/lib LC_ALL=C.UTF-8
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
if [ -f "$here/t.c" ]; then
gcc -w -Isrc "$here/t.c" -o "$W/t" -Lbuild/lib -lbsdconv || exit 2
fi
# expect WANT CONVERSION OPS...
expect(){ want=$1; shift; got=$(timeout 60 "$W/t" "$@"); [ "$got" = "$want" ] || { echo "t $*: expected $want, got $got"; exit 1; }; }
# same: both runs give the same result
