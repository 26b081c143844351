#!/bin/bash
# builds the engine into /verif/build/fve (git-ignored)
set -e
cd "$(dirname "$0")"
mkdir -p ../build
if [ ../build/fve -nt fve.cpp ] && [ ../build/fve -nt term.h ] && [ ../build/fve -nt ring.h ]; then exit 0; fi
g++ -O2 -std=c++17 -fexceptions -w fve.cpp -o ../build/fve.tmp.$$ \
  -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
mv ../build/fve.tmp.$$ ../build/fve
