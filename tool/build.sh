#!/bin/bash
# builds the fact extractor into $1 (default: build/hx beside this script)
set -e
d=$(cd "$(dirname "$0")" && pwd)
out=${1:-$d/build/hx}
mkdir -p "$(dirname "$out")"
L=/usr/lib/llvm-18
c++ -s -std=c++17 -O1 -fno-rtti -w -I$L/include "$d/hx.cpp" -o "$out.tmp.$$" -L$L/lib -Wl,-rpath,$L/lib \
  -Wl,--start-group -lclangTooling -lclangToolingCore -lclangFrontend -lclangDriver -lclangSerialization -lclangParse -lclangSema \
  -lclangAPINotes -lclangAnalysis -lclangEdit -lclangAST -lclangASTMatchers -lclangLex -lclangBasic -lclangIndex -lclangSupport -lclangRewrite \
  -Wl,--end-group -lLLVM-18
mv "$out.tmp.$$" "$out"
