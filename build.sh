#!/bin/bash
# Build the simulator and the coverage-instrumented cargo-mutants binary from /repo's working tree.
# (VERIF_REPO and DST_BUILD name another tree and build directory: only for trying planted bugs in scratch copies.)
set -e
V=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null || true
R=${VERIF_REPO:-/repo}
B=${DST_BUILD:-$V/.build}
mkdir -p "$B/sim"
make -s -C "$V/sim" OUT="$B/sim" >&2
cd "$R"
export CARGO_TARGET_DIR="$B/target" CARGO_PROFILE_DEV_DEBUG=0
cargo rustc -q --bin cargo-mutants --locked --offline -- \
  -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
  -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
  -Clink-arg=-Wl,--unresolved-symbols=ignore-all >&2

# where the program synchronises its threads: code ranges of lock, unlock, send, receive and atomic operations
E="$B/target/debug/cargo-mutants"
if [ "$E" -nt "$B/sim/syncmap" ]; then
  nm -S -C --defined-only "$E" 2>/dev/null | python3 -c '
import re, sys
for l in sys.stdin:
    q = l.rstrip("\n").split(" ", 3)
    if len(q) == 4 and q[2] in "tTwW" and re.search(
            r"(Mutex|RwLock)<.*>>::(try_)?(lock|read|write)$|Guard<.*Drop>::drop$|drop_glue::<[^<]*(Mutex|RwLock)\w*Guard<|Condvar>?::(wait|notify)"
            r"|mpsc::|crossbeam|Atomic<\w+>>::(load|store|swap|fetch|compare)", q[3]):
        print(q[0], q[1])' > "$B/sim/syncmap.tmp"
  mv "$B/sim/syncmap.tmp" "$B/sim/syncmap"
fi
