#!/bin/bash
# developer helper: dev.sh build c01 [include dir] ; builds into /tmp/b
set -e
D=${D:-/verif/sim}; B=${B:-/tmp/b}; INC=${INC:-/repo/include}; mkdir -p $B/t
for s in sim model; do if [ $D/$s.cpp -nt $B/$s.o ] || [ $D/sim.hpp -nt $B/$s.o ] || [ $D/model.hpp -nt $B/$s.o ]; then g++ -std=c++17 -O1 -g1 -fsanitize=address -c $D/$s.cpp -o $B/$s.o; fi; done
for c in "$@"; do
 ( X=""; [ $c = c06 ] && X="-fsanitize=signed-integer-overflow,integer-divide-by-zero,bounds,null,return,unreachable -fno-sanitize-recover=all"; [ $c = c09 ] && X="-fsanitize-coverage=trace-pc -rdynamic"
   g++ -std=c++14 -include cstdint -I$INC -O1 -g1 -fsanitize=address $X -D_GLIBCXX_ASSERTIONS -ftrivial-auto-var-init=pattern -w -Wno-psabi -c $D/$c.cpp -o $B/$c.o && g++ -fsanitize=address $X $B/sim.o $B/model.o $B/$c.o -o $B/$c -lpthread -ldl ) &
done
wait
