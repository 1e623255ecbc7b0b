#!/bin/bash
# builds the demonstration beside this script against the sources in the current directory (/repo) and runs it
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
F="-O1 -std=c++20 -w -fno-access-control -Iinclude -Isrc -Iexternal -I."; export F T
find src -name '*.cpp' | xargs -P8 -I{} sh -c 'g++ $F -c {} -o $T/$(echo {} | tr / _).o' || exit 90
g++ $F "$D/demo.cpp" $T/*.o -lpthread -o $T/demo || exit 91
timeout 100 $T/demo
