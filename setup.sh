#!/bin/bash
# Builds the framework: the symbolic executor, the standard library for the executor's wasm target
# (64-bit pointers, so usize has the width it has on the real platforms), and the harnesses.
# Everything goes to /verif/build (git-ignored).
set -euo pipefail
V=$(cd "$(dirname "$0")" && pwd)
B=$V/build
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
mkdir -p "$B"

# 1. executor
(cd "$V/engine" && CARGO_TARGET_DIR=$B/engine cargo build --release --offline 2>&1 | tail -2)

# 2. sysroot
SR=$B/sr
if [ ! -e "$SR/ok" ]; then
  mkdir -p "$SR"
  TC=$(rustc --print sysroot)
  if [ -d "$SR/lib" ]; then rm -r "$SR/lib"; fi
  cp -r "$TC/lib/rustlib/src/rust/library" "$SR/lib"
  # stub: DefaultHasher sees only the length of what it hashes (see DESIGN.md)
  python3 - "$SR/lib/std/src/hash/random.rs" <<'P'
import sys
p=sys.argv[1]; s=open(p).read()
a='self.0.write(msg)'; b='self.0.write_str(s);'
assert s.count(a)==1 and s.count(b)==1
s=s.replace(a,'self.0.write_usize(msg.len())').replace(b,'self.0.write_usize(s.len());')
open(p,'w').write(s)
P
  RUSTC_BOOTSTRAP=1 rustc -Zunstable-options --print target-spec-json --target wasm64-unknown-unknown \
    | sed 's/"arch": "wasm64"/"arch": "wasm32"/' > "$B/wasmx64.json"
  (cd "$SR/lib/sysroot" && RUSTC_BOOTSTRAP=1 \
     RUSTFLAGS='-Zunstable-options -Zforce-unstable-if-unmarked -Cpanic=abort -Coverflow-checks=off -Cdebuginfo=0' \
     __CARGO_DEFAULT_LIB_METADATA=vsys \
     cargo build -Zjson-target-spec --offline --release --target "$B/wasmx64.json" \
       --no-default-features --features compiler-builtins-mem --target-dir "$SR/target" 2>&1 | tail -2)
  S=$SR/sysroot/lib/rustlib
  mkdir -p "$S/wasmx64/lib"
  cp "$SR"/target/wasmx64/release/deps/*.rlib "$S/wasmx64/lib/"
  if [ ! -e "$S/x86_64-unknown-linux-gnu" ]; then cp -rs "$TC/lib/rustlib/x86_64-unknown-linux-gnu" "$S/"; fi
  touch "$SR/ok"
fi

# 3. harnesses (dependencies compiled once here; a check recompiles what changed in /repo)
if [ "${1:-}" != engine ]; then
  python3 "$V/run.py" --build-all
fi
