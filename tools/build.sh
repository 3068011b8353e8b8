#!/bin/bash
# builds the extractor (only when its source changed)
set -e
D=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$D/bin"
H=$(sha256sum "$D/extract.cc" | cut -d' ' -f1)
[ -x "$D/bin/extract" ] && [ "$(cat "$D/bin/extract.hash" 2>/dev/null)" = "$H" ] && exit 0
CPP=$(ls /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1 /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18 2>/dev/null | head -1)
LL=/usr/lib/llvm-18/lib/libLLVM-18.so
g++ -std=gnu++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "$D/extract.cc" -o "$D/bin/extract.tmp" "$CPP" "$LL"
mv "$D/bin/extract.tmp" "$D/bin/extract"; echo "$H" > "$D/bin/extract.hash"
