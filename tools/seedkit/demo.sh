#!/bin/bash
# Builds the runtime from the current directory's sources with a small host program
# (demo.rs, run on node's V8) in a scratch directory: exit 0 if it behaves.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
S=$(mktemp -d) || exit 3
trap 'rm -rf -- "$S"' EXIT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= DOCS_RS=1
export CARGO_TARGET_DIR=$S/target RUNTIME_SNAPSHOT_PATH=$S/snapshot.bin
: > "$RUNTIME_SNAPSHOT_PATH"
cp -r "$D/kit/." "$S/" && mkdir -p "$S/host/src" && cp "$D/demo.rs" "$S/host/src/demo.rs" || exit 3
python3 "$S/sync.py" "$R" "$S/ws" || exit 3
( clang++ -std=c++20 -O1 -fPIC -fno-rtti -w -I/usr/include/node -I"$S/shim" -shared -o "$S/libshim.so" "$S/shim/shim.cc" -ldl ) & C=$!
( cd "$S/host" && cargo build -q --locked @FEATURES@ ) || exit 3
wait $C || exit 3
cd "$S" && LD_PRELOAD="$S/libshim.so:$S/target/debug/libowh.so" timeout 120 /usr/bin/node
