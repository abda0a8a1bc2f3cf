#!/bin/bash
# builds demo.cpp against the library of /repo (cwd) in a scratch directory and runs it there
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d) || exit 99
trap 'find "$W" -delete' EXIT
FLAGS=
[ -f "$D/flags" ] && FLAGS=$(cat "$D/flags")
if [ -f "$D/whole" ]; then
  # the library compiled together with the demonstration (sanitizers)
  SRC=$(ls "$R"/src/libeopsi/*.cpp); LIB=
else
  SRC=; LIB="-L$R/_build/src/libeopsi -leopsi -Wl,-rpath,$R/_build/src/libeopsi"
fi
g++ -std=c++11 -w -fno-access-control $FLAGS -I"$R/src" -I"$R/src/libeopsi" -I"$D" "$D/demo.cpp" $SRC -o "$W/demo" $LIB -lntl -lgmp -lgmpxx -lcryptopp -lpthread || exit 0
cd "$W" && ASAN_OPTIONS=detect_leaks=0 timeout 200 ./demo
