#!/bin/bash
# build.sh OUTDIR [REPO] [zones]: builds the simulator from the current sources; with `zones` the sources are
# instrumented to notice accesses beyond variables, otherwise to be interrupted at every access to shared memory.
set -eu
out=$1; repo=${2:-/repo}; here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$out"
S="-fsanitize=thread"; z=
if [ "${3:-}" = zones ]; then
  S="-fsanitize=kernel-address -fasan-shadow-offset=0x300000000000 --param asan-instrumentation-with-call-threshold=0 --param asan-stack=1 --param asan-globals=1"; z="$out/zones.o"
  echo 'int sim_zones = 1;' | gcc -x c -c - -o "$z"
fi
CF="-std=gnu90 -O1 -g -w -fno-builtin $S -ftrivial-auto-var-init=pattern -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fstack-protector-all -fno-inline-functions -DPCRE2_CODE_UNIT_WIDTH=8 -DOPENELP_VERSION=0.9.4-dev -DOPENELP_MAJOR_VERSION=0 -DOPENELP_MINOR_VERSION=9 -DOPENELP_PATCH_VERSION=4 -DHAVE_SYSLOG=1 -DOPENELP_CONFIG_HINT=/etc/hint.conf -I$repo/include"
pids=()
fail=0
for f in "$repo"/src/*.c; do
  b=$(basename "$f" .c)
  case $b in *_win|service|conn_wsa_errno) continue;; esac
  x=; [ $b = proxyd ] && x="-Dmain=proxyd_main"
  ( gcc $CF $x -c "$f" -o "$out/r_$b.o" && objcopy --redefine-syms="$out/../syms" "$out/r_$b.o" ) 2>"$out/r_$b.err" &
  pids+=($!)
done
for f in sched mem net io harness units; do
  if [ -n "${SIM_CACHE:-}" ] && [ "$SIM_CACHE/s_$f.o" -nt "$here/$f.cpp" ]; then cp "$SIM_CACHE/s_$f.o" "$out/s_$f.o"; continue; fi
  ( g++ -std=gnu++17 -O1 -g -w -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -I$repo/include -c "$here/$f.cpp" -o "$out/s_$f.o" ) 2>"$out/s_$f.err" &
  pids+=($!)
done
for p in "${pids[@]}"; do wait $p || fail=1; done
if [ $fail = 1 ]; then cat "$out"/*.err >&2; exit 3; fi
g++ -no-pie -g "$out"/r_*.o "$out"/s_*.o $z -lpcre2-8 -o "$out/sim"
