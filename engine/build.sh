#!/bin/sh
# builds the analysers into /verif/build (skips what is up to date); optional argument: only that tool
cd "$(dirname "$0")" || exit 2
B=../build; mkdir -p $B
need() { [ ! -x "$OUT" ] && return 0; for f in "$@"; do [ "$f" -nt "$OUT" ] && return 0; done; return 1; }
cc() { clang++-18 -std=c++17 $OPT -fno-rtti -w $1 $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//') -fexceptions -o $OUT.$$ $(llvm-config-18 --ldflags) -lLLVM-18 && mv $OUT.$$ $OUT; }
if [ -z "$1" ] || [ "$1" = bitflow ]; then OUT=$B/bitflow; OPT=-O2; need bitflow.cc bdd.h intrinsics.inc && { cc bitflow.cc || exit 2; }; fi
if [ -z "$1" ] || [ "$1" = irdump ]; then OUT=$B/irdump; OPT=-O1; need irdump.cc && { cc irdump.cc || exit 2; }; fi
exit 0
