#!/bin/sh
# build.sh REPO OUTDIR: compiles the library from REPO's working tree with coverage guards and sanitizers, and the simulator.
set -e
R=$1; O=$2; mkdir -p "$O"
H=$(cd "$(dirname "$0")" && pwd)
INC="-iquote $R/include"
LIBF="-std=c++11 -O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr,float-divide-by-zero,float-cast-overflow -fsanitize-coverage=trace-pc-guard -D_GLIBCXX_ASSERTIONS -fno-omit-frame-pointer -w -I$R/include"
SIMF="-std=c++17 -O1 -g1 -fsanitize=address -fno-omit-frame-pointer -w -D_GLIBCXX_ASSERTIONS $INC -idirafter $R/include"
for f in "$H"/*.cpp; do echo "clang++ $SIMF -c $f -o $O/sim_$(basename "$f" .cpp).o"; done > "$O/cmds"
for f in "$R"/src/*.cpp; do echo "clang++ $LIBF -c $f -o $O/lib_$(basename "$f" .cpp).o"; done >> "$O/cmds"
xargs -P 8 -I{} sh -c '{} || exit 255' < "$O/cmds"
clang++ -fsanitize=address,undefined -Wl,--wrap=malloc,--wrap=realloc,--wrap=free -o "$O/sim.tmp" "$O"/lib_*.o "$O"/sim_*.o -lpthread -ldl
mv "$O/sim.tmp" "$O/sim"
