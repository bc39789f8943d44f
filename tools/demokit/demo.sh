#!/bin/bash
# Builds the library of the current directory with the stand-ins beside this file and runs demo.cpp against it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
out=$(mktemp -d) || exit 3
trap 'rm -rf "$out"' EXIT
extra=$(cat "$here/flags" 2>/dev/null)
flags="-std=c++17 -O0 -w -pthread $extra -DASIO_STANDALONE -DFMT_DEPRECATED_OSTREAM -DSPDLOG_SHARED_LIB -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -I$here -I$here/stubs -I$repo/lib/include -I$repo/lib/src"
i=0
{ find "$repo/lib/src" -name '*.cpp' | sort; echo "$here/demo.cpp"; } | while read -r f; do i=$((i+1)); echo "$f $out/$i.o"; done > "$out/list"
xargs -P 8 -L 1 sh -c 'g++ '"$flags"' -c "$0" -o "$1"' < "$out/list" || { echo "does not compile"; exit 3; }
g++ $flags "$out"/*.o -o "$out/demo" -lspdlog -lfmt || exit 3
timeout 120 "$out/demo"
rc=$?
[ $rc = 0 ] && echo "as expected" || echo "demonstration failed ($rc)"
exit $rc
