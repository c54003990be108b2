#!/bin/bash
# developer helper: dev.sh SCN [REPO] -> builds /tmp/b/SCN quickly
set -e
R=${2:-/repo}; B=${B:-/tmp/b}; mkdir -p $B
for f in sched heap kernel main; do if [ /verif/sim/$f.cpp -nt $B/$f.o ] || [ /verif/sim/internal.hpp -nt $B/$f.o ] || [ /verif/sim/sim.hpp -nt $B/$f.o ]; then clang++-20 -std=c++20 -O2 -g -fno-omit-frame-pointer -fno-pie -I$R/lib/liburing/include -c /verif/sim/$f.cpp -o $B/$f.o & fi; done; wait
[ -f $B/uring.o ] || bash /verif/sim/liburing.sh $R $B/uring.o
F="-std=c++20 -O1 -g -fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0 -fno-omit-frame-pointer -fno-pie -ftrivial-auto-var-init=pattern -DNDEBUG -DHXLIBS_ENABLE_SSL -D_GLIBCXX_EXTERN_TEMPLATE=0 -I/verif/sim -I$R/include -I$R/lib/liburing/include -Wno-everything"
clang++-20 $F -c /verif/scn/$1.cpp -o $B/$1.o
clang++-20 -no-pie -rdynamic $B/{sched,heap,kernel,main,uring}.o $B/$1.o -o $B/$1 -lpthread -ldl -lssl -lcrypto
