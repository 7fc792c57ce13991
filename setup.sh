#!/bin/bash
# Builds the extractor (a libTooling program) from the committed source.
set -e
cd "$(dirname "$0")"
mkdir -p build
out=build/brk-extract
if [ -x "$out" ] && [ "$out" -nt extract/extract.cpp ]; then
	exit 0
fi
CXX=/usr/bin/clang++-18
[ -x "$CXX" ] || CXX=clang++
flags=$(llvm-config-18 --cxxflags | sed -e 's/-std=[^ ]*//' -e 's/-fno-exceptions//')
"$CXX" -O1 -std=c++17 -fno-rtti -w $flags extract/extract.cpp -o "$out.tmp.$$" \
	/usr/lib/llvm-18/lib/libclang-cpp.so.18.1 $(llvm-config-18 --ldflags --libs)
mv "$out.tmp.$$" "$out"
