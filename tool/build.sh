#!/bin/bash
# Builds the exporters with the installed clang 18 libraries (no network).
set -e
cd "$(dirname "$0")"
mkdir -p ../build
for t in gfx gflint; do
    [ ../build/$t -nt $t.cpp ] && continue
    tmp=$(mktemp ../build/$t.XXXXXX)
    clang++-18 -std=c++17 -O1 -fno-rtti -w $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//') $t.cpp -o "$tmp" \
        /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18
    chmod +x "$tmp"
    mv -f "$tmp" ../build/$t
done
