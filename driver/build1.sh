#!/bin/bash
# dev helper: build1.sh cXX
cd /repo
mkdir -p /tmp/drv
if [ ! -e /tmp/drv/json.a ]; then (cd /tmp/drv && for f in $(find /repo/dependencies/jsoncpp -name '*.cpp' | grep -v -e test -e main); do g++ -std=c++14 -w -O1 -fsanitize=address -I/repo/dependencies/jsoncpp/include -c $f -o j_$(basename $f).o; done; ar rcs json.a j_*.o); fi
if [ "$2" = lib -o ! -e /tmp/drv/lib.a ]; then rm -f /tmp/drv/x_*.o; find src -name '*.cpp' | xargs -P8 -I{} sh -c 'g++ -std=c++14 -w -O1 -g -D_GLIBCXX_ASSERTIONS -fsanitize=address -Idependencies/jsoncpp/include -Isrc -c {} -o /tmp/drv/x_$(basename {}).o'; rm -f /tmp/drv/lib.a; ar rcs /tmp/drv/lib.a /tmp/drv/x_*.o; fi
g++ -fno-access-control -DXVC_PRIV -std=c++14 -w -O1 -g -D_GLIBCXX_ASSERTIONS -fsanitize=address -Idependencies/jsoncpp/include -Isrc /verif/driver/$1.cpp /tmp/drv/lib.a /tmp/drv/json.a -lpthread -o /tmp/drv/$1
