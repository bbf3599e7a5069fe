#!/bin/bash
# Builds the program beside it with the library's sources and runs it: exit 0 if the property held.
here=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d) || exit 3; trap 'rm -rf "$w"' EXIT
flags="-std=c++11 -O1 -g -w $(cat "$here/flags" 2>/dev/null) -Isrc -Isrc/libeopsi"
for f in src/libeopsi/*.cpp; do g++ $flags -c "$f" -o "$w/$(basename "$f").o" & done; wait
g++ $flags -I"$here" "$here/demo.cpp" "$w"/*.o -lntl -lgmpxx -lgmp -lcryptopp -lpthread -o "$w/demo" || exit 3
cd "$w" && timeout 200 ./demo > "$w/out" 2> "$w/err"; r=$?
grep -a "DEMO:" "$w/out" "$w/err"; [ $r = 0 ] || tail -5 "$w/err"
exit $r
