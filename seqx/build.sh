#!/bin/bash
# build.sh <program> <outdir> : one exploration program from /repo's current tree
set -e
H=$(dirname "$(readlink -f "$0")"); S=$1; O=$2; shift 2
REPO=${FN_REPO:-/repo}
mkdir -p "$O"
XD=$(sed -n 's|^// DEFS: ||p' "$H/pr/$S.cpp" | head -1)
DEFS="-DFN_LOG_MAX_LOG_QUEUE_SIZE=16 -DFN_LOG_MAX_LOG_SIZE=640 -DFN_LOG_MAX_DEVICE_SIZE=3 -DFN_LOG_MAX_CHANNEL_SIZE=2"; for d in $XD; do k=${d%%=*}; DEFS=$(echo "$DEFS" | sed "s|$k=[0-9]*||"); DEFS="$DEFS $d"; done
SAN="-fsanitize=address,signed-integer-overflow,shift,integer-divide-by-zero,bounds,null,float-cast-overflow,return,unreachable,builtin -fno-sanitize-recover=all -fno-omit-frame-pointer"
W=""; for f in fopen fileno fstat stat lstat fsync fdatasync posix_fadvise opendir closedir mkdir access rename remove unlink time gettimeofday nanosleep clock_nanosleep socket fcntl bind sendto recvfrom recv close shmget shmat shmdt shmctl gethostbyname; do W="$W -Wl,--wrap=$f"; done
NOSAN=$(sed -n 's|^// SAN: ||p' "$H/pr/$S.cpp" | head -1); [ "$NOSAN" = none ] && PSAN="" || PSAN="$SAN"
pids=""
clang++ -std=c++17 -O2 -g -w -I"$H" -c "$H/env.cpp" -o "$O/$S.env.o" & pids="$pids $!"
clang++ -std=c++17 -O2 -g -w -I"$H" -c "$H/eng.cpp" -o "$O/$S.eng.o" & pids="$pids $!"
clang++ -std=c++14 -O1 -g -w -D_GLIBCXX_ASSERTIONS $PSAN -I"$H" -I"$REPO/src/include" $DEFS "$@" -c "$H/pr/$S.cpp" -o "$O/$S.pr.o" & pids="$pids $!"
for p in $pids; do wait $p; done
clang++ ${PSAN:+-fsanitize=address,undefined} $W -o "$O/$S" "$O/$S.pr.o" "$O/$S.env.o" "$O/$S.eng.o" -lpthread
