#!/bin/bash
# build.sh <scenario> <outdir> [extra -D...] : builds libfnmc.so and one scenario from /repo's current tree
set -e
H=$(dirname "$(readlink -f "$0")"); S=$1; O=$2; shift 2
REPO=${FN_REPO:-/repo}
mkdir -p "$O"
if [ ! -e "$O/libfnmc.so" ] || [ "$H/rt.cpp" -nt "$O/libfnmc.so" ] || [ "$H/mc.h" -nt "$O/libfnmc.so" ]; then
  clang++ -std=c++17 -O2 -g -fPIC -shared -D__NO_INLINE__ -Wno-misleading-indentation -o "$O/libfnmc.so.$$" "$H/rt.cpp" -ldl -Wl,-z,now
  mv "$O/libfnmc.so.$$" "$O/libfnmc.so"
fi
[ "$S" = - ] && exit 0
XD=$(sed -n 's|^// DEFS: ||p' "$H/sc/$S.cpp" | head -1)
DEFS="-DFN_LOG_MAX_LOG_QUEUE_SIZE=11 -DFN_LOG_MAX_LOG_SIZE=640 -DFN_LOG_MAX_DEVICE_SIZE=2 -DFN_LOG_MAX_CHANNEL_SIZE=1"; for d in $XD; do k=${d%%=*}; DEFS=$(echo "$DEFS" | sed "s|$k=[0-9]*||"); DEFS="$DEFS $d"; done
clang++ -std=c++11 -O1 -g -fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0 -fno-builtin-printf -ftrivial-auto-var-init=zero \
  -w -I"$REPO/src/include" $DEFS "$@" -c "$H/sc/$S.cpp" -o "$O/$S.o"
clang++ -no-pie -o "$O/$S" "$O/$S.o" -L"$O" -lfnmc -Wl,-rpath,"$O" -Wl,-z,now -lpthread
