#!/bin/bash
# Usage: mkautark.sh DESTDIR [extra cflags...]   -- builds /repo's working tree into DESTDIR/autark
set -eu
REPO=${AUTARK_REPO:-/repo}
D=$1; shift
mkdir -p "$D/src"
cp "$REPO"/*.c "$REPO"/*.h "$REPO"/*.leg "$D/src/"
cd "$D/src"
leg -P -o scriptx.h scriptx.leg 2>leg.log
sed -e 's|^//autarkdef META_VERSION.*|#define META_VERSION "0.9.0"|' \
    -e 's|^//autarkdef META_REVISION.*|#define META_REVISION "verif"|' "$REPO/config.h.in" > config.h
F="-std=c99 -D_XOPEN_SOURCE=700 -D_POSIX_C_SOURCE=200809L -D_DEFAULT_SOURCE -DTESTS -DDEBUG=1 -O1 -g -w -I. $*"
ls *.c | xargs -P 8 -I{} gcc $F -c {} -o {}.o
gcc $F -o ../autark *.o
