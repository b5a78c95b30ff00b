#!/bin/bash
# Builds the fact extractor (clang 18 libTooling) into /verif/_out/dp3facts.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../_out}
mkdir -p "$out"
key=$(sha256sum "$here/dp3facts.cc" | cut -c1-16)
if [ -x "$out/dp3facts" ] && [ "$(cat "$out/dp3facts.key" 2>/dev/null)" = "$key" ]; then exit 0; fi
L=/usr/lib/llvm-18
tmp=$(mktemp "$out/dp3facts.XXXXXX")
clang++ $($L/bin/llvm-config --cxxflags) -fexceptions -O1 -Wno-unused "$here/dp3facts.cc" -o "$tmp" \
  -L$L/lib -l:libclang-cpp.so.18.1 $($L/bin/llvm-config --libs --link-shared)
mv -f "$tmp" "$out/dp3facts"
echo "$key" > "$out/dp3facts.key"
