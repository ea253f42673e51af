#!/bin/bash
# build.sh PROP TU.h OUT INCLUDE-FLAGS...: compiles the code under test (TU.h) and the harness, links them into OUT
here=$(cd "$(dirname "$0")" && pwd); p=$1; tu=$2; out=$3; shift 3
F="-std=gnu11 -w -g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=alignment,pointer-overflow,function,bounds,shift-base,null,object-size -fno-sanitize-recover=undefined"
l=; [ $p = C23 ] && l=-lsqlite3
snip=; [ -f "$here/$p.h" ] && snip="-DSNIP=\"$here/$p.h\""
clang $F "$@" -DTU="\"$tu\"" ${snip:+"$snip"} -c "$here/tu.c" -o "$out.tu.o" & a=$!
clang $F "$@" -I"$here" -c "$here/$p.c" -o "$out.h.o" || exit 1
wait $a || exit 1
exec clang -fsanitize=address,undefined "$out.tu.o" "$out.h.o" -o "$out" -lm $l
