#!/bin/bash
# usage: [SAN=address|thread] build.sh OUTDIR  -- compiles /repo's sources and the harness
set -u
R=${VERIF_REPO:-/repo}; H=$(cd "$(dirname "$0")" && pwd); O=$1
mkdir -p "$O"
CXX=${CXX:-clang++}
S="-fsanitize=${SAN:-address}"
F="-std=c++17 -O1 -g1 -D_GLIBCXX_ASSERTIONS $S -fno-omit-frame-pointer -w -DEFG_JSON_IO=1 -I$R/src/header -I$R/src/src -I$R/src"
{ find "$R/src/src" -name '*.cpp' ! -path '*/xml/*' ! -name ModelTrainer.cpp; ls "$H"/*.cpp; } > "$O/list"
i=0
while read -r f; do i=$((i+1)); echo "$f $O/$i.o"; done < "$O/list" |
  xargs -P 8 -L 1 sh -c "$CXX $F -c \$0 -o \$1 2>>$O/err.log || echo \$0 >> $O/failed"
[ -s "$O/failed" ] && { cat "$O/failed"; head -40 "$O/err.log"; exit 1; }
$CXX $S "$O"/*.o -o "$O/harness" -lpthread 2>>"$O/err.log" || { tail -20 "$O/err.log"; exit 1; }
