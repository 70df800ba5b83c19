#!/bin/bash
# build_bc.sh REPO OUTDIR : compiles every library source of REPO to bitcode and links it to OUTDIR/all.bc
set -euo pipefail
repo=$1; out=$2; mkdir -p "$out"; cd "$repo"
export repo out
find src -name '*.cpp' | grep -v -E '_(win|macos)\.cpp$|/libogg/' | sort > "$out/units.txt"
xargs -P8 -I{} sh -c 'clang++ -std=c++17 -O1 -Xclang -disable-llvm-passes -g -fstandalone-debug -fno-exceptions -DNDEBUG ${SA_EXTRA:-} -DHAVE_OPENSSL=1 -fwhole-program-vtables -flto -fvisibility=hidden -fno-discard-value-names -w -Iinclude -Isrc -Isrc/stun -emit-llvm -c {} -o $out/$(echo {} | tr / _).bc || exit 255' < "$out/units.txt"
llvm-link-18 "$out"/*.cpp.bc -o "$out/all.bc"
rm -f "$out"/*.cpp.bc
