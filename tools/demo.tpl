#!/bin/bash
# Exit 0 when the property holds. Run in /repo after the build.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
B=.build-waf-default/src
/usr/lib/llvm-18/bin/clang -std=gnu11 -fblocks -O1 -funsigned-char \
    -fno-strict-aliasing -fwrapv -w -march=x86-64-v2 -D_GNU_SOURCE \
    -DHAS_LIBCOMMON_REPOSITORY=0 -D__gcc_has_no_ifunc \
    '-Dindex(s,c)=index__(s,c)' -I. -Isrc/compat -I/usr/include/libxml2 \
    -I/usr/include/valgrind -DHAVE_LIBXML=1 -DHAVE_OPENSSL=1 -DHAVE_ZLIB=1 \
    "$d"/demo.c -o "$t"/demo -Wl,--start-group \
    $B/liblibcommon.a $B/liblibcommon-iop.a $B/liblibcommon-minimal.a \
    -Wl,--end-group \
    -lxml2 -lssl -lcrypto -lz -lBlocksRuntime -lpthread -ldl -lm -lrt || exit 2
cd "$t" && timeout 120 ./demo
