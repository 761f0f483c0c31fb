#!/bin/bash
# build.sh REPO [variant...]: mirror REPO, build the shim and the host. Variants: base, mux (the
# multiplexing feature), jit (with injected delays), asan, tsan, asan-mux, tsan-mux (instrumented by a sanitizer, nightly compiler).
set -e
H=$(cd "$(dirname "$0")" && pwd); V=$(dirname "$H")
REPO=${1:-/repo}; shift || true
. "$H/env.sh"
mkdir -p "$V/build/bin"
python3 "$H/sync.py" "$REPO" "$V/build/ws"
S="$V/build/bin/libshim.so"
if [ ! -f "$S" ] || [ "$H/shim/shim.cc" -nt "$S" ] || [ "$H/shim/shim_support.h" -nt "$S" ] || [ "$H/shim/shim_more.inc" -nt "$S" ]; then
  ( clang++ -std=c++20 -O1 -g -fPIC -fno-rtti -w -I/usr/include/node -I"$H/shim" -c "$H/shim/shim.cc" -o "$V/build/shim.o" &&
    clang++ -shared -o "$S.tmp" "$V/build/shim.o" -ldl && mv "$S.tmp" "$S" ) & SHIM=$!
fi
# The jit variants: the same sources with delays injected around atomics and locks.
J="$V/build/host-jit"
case " $* " in *" jit"*)
  python3 "$H/sync.py" "$REPO" "$V/build/ws-jit" jitter
  mkdir -p "$J" && ln -sfn "$H/host/src" "$J/src" && cp -u "$H/host/Cargo.lock" "$J/"
  sed "s#../../build/ws\"#$V/build/ws-jit\"#; s#\.\./core\"#$H/core\"#" "$H/host/Cargo.toml" > "$J/Cargo.toml.new"
  cmp -s "$J/Cargo.toml.new" "$J/Cargo.toml" || cp "$J/Cargo.toml.new" "$J/Cargo.toml" ;;
esac
one() {
  local v=$1 F="" T="$CARGO_TARGET_DIR"
  case $v in *mux) F="--features multiplexing" ;; esac
  case $v in
    asan*|tsan*)
      local k=${v%-mux} flags="-Zsanitizer=address" std=""
      if [ $k = tsan ]; then flags="-Zsanitizer=thread"; std="-Zbuild-std"; fi
      T="$V/build/target-$k"
      ( cd "$H/host" && CARGO_TARGET_DIR="$T" RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTFLAGS="$flags -Cdebuginfo=1 -Awarnings" cargo build -q --locked $F $std --target x86_64-unknown-linux-gnu ) || return 1
      T="$T/x86_64-unknown-linux-gnu" ;;
    jit*) # (sources this variant cannot take, say for a type it does not wrap: go without it)
      rm -f "$V/build/bin/libowh-$v.so"
      ( cd "$J" && cargo build -q --locked --features "jitter${F:+,multiplexing}" ) || { echo "variant $v cannot be built: skipped" >&2; return 0; } ;;
    *) ( cd "$H/host" && cargo build -q --locked $F ) || return 1 ;;
  esac
  cp -f "$T/debug/libowh.so" "$V/build/bin/libowh-$v.so.new" && mv -f "$V/build/bin/libowh-$v.so.new" "$V/build/bin/libowh-$v.so"
}
# (variants that share a target directory one after another)
lanes() { local k=$1 v; shift; for v in "$@"; do case $v in $k*) one $v || return 1 ;; esac; done; }
all=${@:-base}
lanes asan $all & A=$!
lanes tsan $all & B=$!
for v in $all; do case $v in asan*|tsan*) ;; *) one $v || exit 1 ;; esac; done
wait $A; wait $B
[ -z "$SHIM" ] || wait $SHIM
