#!/bin/bash
# Compile one of the repository's own tests against the crypto3 stand-in and run it.
# usage: repotest.sh <test path without .cpp> [extra g++ flags]
t=$1; shift
d=${REPOTEST_OUT:-/tmp/repotest}; mkdir -p "$d"
o=$d/$(echo "$t" | tr / _)
here=$(cd "$(dirname "$0")/.." && pwd)
ccache g++ -std=c++17 -O1 -DBOOST_TEST_DYN_LINK -fconstexpr-ops-limit=4294967295 -include vshim/prelude.hpp -DTEST_DATA_DIR=\"/repo/test/\" -I "$here/shim" -I /repo/include -I /repo "$@" -c "/repo/test/$t.cpp" -o "$o.o" > "$o.log" 2>&1 || { echo "$t: COMPILE FAIL: $(grep -m1 -E 'error:' "$o.log" | cut -c1-250)"; exit 1; }
g++ -std=c++17 "$@" "$o.o" -o "$o" -lboost_unit_test_framework -lboost_random -lboost_filesystem -lboost_json >> "$o.log" 2>&1 || { echo "$t: LINK FAIL"; exit 1; }
( cd "$d"; timeout ${REPOTEST_TIMEOUT:-300} "$o" > "$o.out" 2>&1; rc=$?; echo "$t: rc=$rc $(tail -1 "$o.out" | cut -c1-150)" )
