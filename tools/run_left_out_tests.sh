#!/bin/bash
# Builds and runs ALL of the repository's unit tests (including those /opt/vp/build.sh leaves out because
# ser4cpp/exe4cpp are not installed) against the stand-ins in /verif/stubs. Used to validate fixes.
# usage: run_left_out_tests.sh [repo]
set -e
REPO=${1:-/repo}
HERE=$(cd "$(dirname "$0")/.." && pwd)
OUT=$(mktemp -d /tmp/leftout.XXXXXX)
trap 'rm -rf "$OUT"' EXIT
FLAGS="-std=c++17 -O0 -w -DASIO_STANDALONE -DFMT_DEPRECATED_OSTREAM -DSPDLOG_SHARED_LIB -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -I$HERE/stubs -I$REPO/lib/include -I$REPO/lib/src -I/opt/vp/cmake/compat -I$REPO/lib/tests/unit"
i=0
find $REPO/lib/src $REPO/lib/tests/unit -name '*.cpp' | while read -r f; do i=$((i+1)); echo "$f $OUT/$i.o"; done > $OUT/list
xargs -P 8 -L 1 sh -c 'clang++ '"$FLAGS"' -c "$0" -o "$1"' < $OUT/list
clang++ $OUT/*.o -o $OUT/tests -lCatch2Main -lCatch2 -lspdlog -lfmt -lpthread
$OUT/tests
