#!/bin/bash
# Builds the simulator around the library sources of /repo's working tree. usage: build.sh [OUTDIR] [REPO]
set -e
here=$(cd "$(dirname "$0")" && pwd); out=${1:-$here/build}; repo=${2:-${REPO:-/repo}}
mkdir -p "$out/gen" "$out/lib" "$out/har" "$out/inc"
export PYTHONDONTWRITEBYTECODE=1
sed 's/#cmakedefine \([A-Z0-9_]*\).*/#define \1/' "$repo/config.h.in" > "$out/inc/config.h"
rm -f "$out"/gen/* "$out"/lib/*
for g in alpha beta gamma delta; do python3 "$repo/generator/parser.py" --service "$here/sim/proto/$g.gr" --out "$out/gen" --lang-c --server --client >/dev/null & done; wait
CF="-std=gnu11 -O1 -g -fno-stack-protector -fno-PIE -fno-omit-frame-pointer -fsanitize=thread -femulated-tls -DGRACHT_BUILD -w -I$out/inc -I$repo/include -I$repo/runtime -I$repo/runtime/link/socket -I$out/gen"
CXX="g++ -std=c++17 -O2 -g -fno-PIE -w -I$repo/include"
pids=()
for f in $(cd "$repo/runtime"; find . -name "*.c" ! -path "*vali*" ! -path "*windows*" | sed "s,^\./,," | sort); do b=$(echo "$f" | tr / _); f="$repo/runtime/$f"; clang-18 $CF -c "$f" -o "$out/lib/rt_${b%.c}.o" & pids+=($!); done
cp "$here/sim/proto/glue.c" "$out/gen/glue.c"
for f in "$out"/gen/*.c; do clang-18 $CF -c "$f" -o "$out/lib/gen_$(basename "$f" .c).o" & pids+=($!); done
for m in sim kernel plan gen main world; do
  s="$here/sim/$m.cpp"; o="$out/har/$m.o"
  key=$(cat "$here"/sim/*.h "$s" "$repo"/include/gracht/*.h "$repo"/include/gracht/link/*.h | sha256sum | cut -c1-32)
  if [ ! -f "$o" ] || [ "$(cat "$o.key" 2>/dev/null)" != "$key" ]; then ( $CXX -c "$s" -o "$o" && echo $key > "$o.key" ) & pids+=($!); fi
done
for p in "${pids[@]}"; do wait $p; done
nm --defined-only "$out/har/sim.o" "$out/har/kernel.o" | awk '$2=="T" && $3 ~ /^sim_/ && $3 != "sim_switch" {n=substr($3,5); print n, $3}' | sort -u > "$out/redef"
for o in "$out"/lib/*.o; do objcopy --redefine-syms="$out/redef" "$o"; done
bad=$(nm -u "$out"/lib/*.o | awk '{print $2}' | sort -u | grep -xE 'dup[23]?|pipe2?|select|pselect|ppoll|fork|vfork|sendmmsg|recvmmsg|syscall|timerfd_.*|signalfd|inotify_.*|splice|mmap|munmap|open|openat|fopen|random|drand48|arc4random|getrandom|clock|clock_nanosleep|epoll_pwait2|pthread_barrier_.*|pthread_cancel|pthread_exit|thrd_exit|sem_timedwait|raise|kill|atexit|longjmp' || true)
[ -z "$bad" ] || { echo "build.sh: the library calls operating-system functions the simulator has no seam for:" $bad >&2; exit 3; }
g++ -no-pie -o "$out/simrun.new" "$out"/har/*.o "$out"/lib/*.o -lpthread
mv "$out/simrun.new" "$out/simrun"
