#!/bin/bash
# liburing.sh REPO OUT.o : compile the library's bundled liburing with its system calls redirected to the simulated kernel
set -e
T=$(mktemp -d); trap 'rm -rf -- "$T"' EXIT
clang++-20 -std=c++20 -O1 -fno-omit-frame-pointer -fno-pie -mno-red-zone -fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0 -DNDEBUG -I"$1/lib/liburing/include" -w -S "$1/lib/liburing/liburing.cpp" -o "$T/l.s"
sed -E -i 's/^([[:space:]]*)syscall[[:space:]]*$/\1callq sim_syscall_thunk/' "$T/l.s"
! grep -qE '^[[:space:]]*syscall' "$T/l.s"
grep -q sim_syscall_thunk "$T/l.s"
clang++-20 -c "$T/l.s" -o "$2"
