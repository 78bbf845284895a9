#!/bin/bash
# cc.sh SRC FLAGS...: one harness, first errors only
src=$1; shift
for c in "g++ -std=c++17" "clang++ -std=c++20"; do echo "== $c"; timeout 300 $c -O0 -w -fsyntax-only -I/repo/include -I/verif/harness -DOPTION_USE_PFR=0 "$@" /verif/harness/$src 2>&1 | grep -E "error|required from here|note: in inst" | cut -c1-260 | head -${N:-6}; done
