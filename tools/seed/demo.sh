#!/bin/bash
# Builds the library sources of the current directory with the program beside this script and runs it.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
cxx="g++ -std=c++17 -O0 -w FLAGS -D_DISABLE_CONSTEXPR_MUTEX_CONSTRUCTOR -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -I$here/shims -I$here -Iinclude"
{ find SOURCES -name '*.cpp'; echo "$here/demo.cpp"; } > "$T/list"
n=0; while read -r f; do n=$((n+1)); echo "$f $T/$n.o"; done < "$T/list" | xargs -P 8 -L 1 sh -c "$cxx -c \$0 -o \$1"
$cxx "$T"/*.o -lspdlog -lfmt -pthread -o "$T/demo"
timeout 100 "$T/demo" > "$T/out" 2>&1 && rc=0 || rc=$?
tail -n 15 "$T/out"
exit $rc
