#!/bin/bash
# builds the harness against /repo's working tree
cd "$(dirname "$0")/../harness" || exit 2
. /opt/vp/env.sh >/dev/null 2>&1
export CARGO_TARGET_DIR=/verif/.build/target CARGO_NET_OFFLINE=true
export RUSTFLAGS='--cfg kryoptic_locktrace'
cargo build --offline -q 2>/verif/.build/build.log || { tail -50 /verif/.build/build.log >&2; exit 2; }
[ /verif/.build/faultshim.so -nt faultshim.c ] || gcc -O1 -shared -fPIC -o /verif/.build/faultshim.so faultshim.c -ldl || exit 2
