#!/bin/bash
# build the symbolic executor (idempotent; rebuilt only when sources change)
set -e
cd "$(dirname "$0")"
out=${1:-../build}
mkdir -p "$out"
key=$(cat bdsym.cpp expr.h build.sh | sha256sum | cut -c1-16)
if [ -x "$out/bdsym" ] && [ "$(cat "$out/bdsym.key" 2>/dev/null)" = "$key" ]; then exit 0; fi
LC=/usr/lib/llvm-18/bin/llvm-config
clang++ -O2 $($LC --cxxflags) -fexceptions bdsym.cpp -o "$out/bdsym.tmp.$$" $($LC --ldflags --libs core irreader support bitreader bitwriter demangle) -lz3 -w
mv "$out/bdsym.tmp.$$" "$out/bdsym"
echo "$key" > "$out/bdsym.key"
