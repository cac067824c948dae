#!/bin/bash
# builds demo.cpp against /repo with ASan/UBSan-free asan and runs every case
set -e
out=$(mktemp -d); trap 'rm -rf "$out"' EXIT
cd /repo
for f in $(find src dependencies/jsoncpp -name '*.cpp' | grep -v test | grep -v main); do
  g++ -std=c++11 -g -O1 -w -fsanitize=address -D_GLIBCXX_ASSERTIONS -Idependencies/jsoncpp/include -Isrc -c $f -o $out/$(basename $f).o &
done; wait
g++ -std=c++11 -g -O1 -w -fsanitize=address -D_GLIBCXX_ASSERTIONS -Idependencies/jsoncpp/include -Isrc /verif/findings/demo.cpp $out/*.o -pthread -o $out/demo
for c in ${@:-$(grep -o 'c == "[a-z0-9-]*"' /verif/findings/demo.cpp | cut -d'"' -f2)}; do
  ASAN_OPTIONS=detect_leaks=1 timeout 20 $out/demo $c >$out/log 2>&1 && r=ok || r="DEFECT($?)"
  echo "$c: $r: $(grep -m1 -E 'FAIL|ERROR|Assertion|what\(\)' $out/log)"
done
