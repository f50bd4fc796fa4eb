#!/bin/bash
# build.sh OUT  - compiles the harness together with /repo's current sources (address sanitizer, asserts on)
set -e
R=${REPO:-/repo}; D=$(dirname "$(readlink -f "$0")"); O=$1; mkdir -p "$O"
F="-std=c++17 -O1 -g1 -fno-access-control -D_GLIBCXX_ASSERTIONS -fsanitize=address -fno-sanitize-recover=all -I$R -I$R/src -w"
for f in $R/src/*.cpp $R/src/crypto/*.cpp "$D/harness.cpp"; do
  b=$(basename "$f" .cpp); [ "$b" = utreexo ] && continue
  ( g++ $F -c "$f" -o "$O/$b.o" 2>"$O/$b.err" || { cat "$O/$b.err"; exit 1; } ) &
  P="$P $!"
done
for p in $P; do wait $p; done
g++ -fsanitize=address "$O"/*.o -o "$O/harness"
