#!/bin/bash
# Builds the simulator's pieces: the libc boundary, dld from /repo's current tree, the driver.
set -e
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/build"
exec 9>"$here/build/.lock"
flock 9
if [ ! -e "$here/build/libshim.so" ] || [ "$here/sim/shim.c" -nt "$here/build/libshim.so" ]; then
  gcc -O2 -Wall -Wextra -Wno-nonnull-compare -shared -fPIC -fno-builtin-malloc -o "$here/build/libshim.so.new" "$here/sim/shim.c" -ldl
  mv "$here/build/libshim.so.new" "$here/build/libshim.so"
fi
RUSTFLAGS=-Awarnings CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0 cargo build -q --offline --locked --bin dld --manifest-path /repo/Cargo.toml --target-dir "$here/build/dld"
cargo build -q --release --offline --manifest-path "$here/sim/Cargo.toml" --target-dir "$here/build/sim"
