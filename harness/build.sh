#!/bin/bash
# build.sh <prog> <outdir>
set -e
D=$(cd "$(dirname "$0")" && pwd)
g++ -std=c++17 -O1 -DNDEBUG -D_GLIBCXX_ASSERTIONS -fopenmp -w -I"$D" -I"${REPO:-/repo}/include" "$D/$1.cpp" -o "$2/$1" -ltbb -lpthread
