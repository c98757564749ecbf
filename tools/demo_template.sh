#!/bin/bash
# Builds demo.cpp against the library build.sh made and runs it. Exit 0: the property holds.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
FL=$(sed -n 's/^flags = //p' /repo/_build/build.ninja)
clang++ $FL -I/repo/CEX -c "$D/demo.cpp" -o "$T/demo.o" || exit 3
x86_64-w64-mingw32-g++-posix -static -o "$T/demo.exe" "$T/demo.o" /repo/_build/libCEX.a -Wl,--stack,16777216 -lws2_32 -liphlpapi -lcrypt32 -lnetapi32 -lpsapi -ladvapi32 -lole32 2>"$T/link.log" || { tail -5 "$T/link.log"; exit 4; }
export WINEPREFIX=/opt/vp/wine WINEDEBUG=-all WINEDLLOVERRIDES="mscoree=;mshtml=;winemenubuilder.exe=;winedbg.exe="
unset DISPLAY
cd "$T" && timeout 250 /usr/lib/wine/wine64 "$T/demo.exe"
