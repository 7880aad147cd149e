#!/bin/bash
# builds demo.c against the library just built and runs it: 0 = behaves as the property says
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
gcc -g -std=gnu11 -fopenmp -w -I"$R/_build/obj" -I"$R/_build/src" "$H/demo.c" -o "$D/demo" -L"$R/_build/obj/.libs" -lapophenia -lgsl -lgslcblas -lsqlite3 -lm || exit 2
cd "$D" && LD_LIBRARY_PATH="$R/_build/obj/.libs" timeout 120 ./demo
