#!/bin/bash
# Build everything from the current working tree of /repo: the shim, the harness (with the splr
# library, hooks on) and the shipped binaries (hooks off). With the argument `checked` only the harness with
# checks of unchecked memory accesses, with `all` everything.
set -e
H=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset CARGO_TARGET_DIR
T=$H/target
mkdir -p "$T"
exec 9>"$T/.lock"
flock 9
if [ ! -f "$T/shim.so" ] || [ "$H/shim/shim.c" -nt "$T/shim.so" ]; then
  gcc -O2 -shared -fPIC -Wall -o "$T/shim.so.new" "$H/shim/shim.c" -ldl
  mv "$T/shim.so.new" "$T/shim.so"
fi
# cargo compares time stamps; a tree that was swapped under it must be rebuilt
H_NOW=$(cd /repo && find src Cargo.toml Cargo.lock build.rs .cargo -type f 2>/dev/null | sort | xargs cat | sha256sum | cut -c1-32)
[ "$(cat "$T/.tree" 2>/dev/null)" = "$H_NOW" ] || rm -rf "$T"/sim/release/.fingerprint/splr-* "$T"/bin/release/.fingerprint/splr-* "$T"/ub/release/.fingerprint/splr-*
LOCKED=--locked
[ -f /repo/Cargo.lock ] || LOCKED=
checked() {
  ( cd "$H/sim" && RUSTC_BOOTSTRAP=1 RUSTFLAGS="--cfg splr_sim -Zub-checks=yes" cargo build --release --offline --target-dir "$T/ub" ) > "$T/ub.log" 2>&1 || { tail -40 "$T/ub.log"; echo "checked harness build failed"; exit 2; }
}
if [ "$1" = checked ]; then
  checked
else
  ( cd /repo && cargo build --release --offline $LOCKED --bins --target-dir "$T/bin" ) > "$T/bin.log" 2>&1 &
  P=$!
  ( cd "$H/sim" && RUSTFLAGS="--cfg splr_sim" cargo build --release --offline --target-dir "$T/sim" ) > "$T/sim.log" 2>&1 || { tail -40 "$T/sim.log"; echo "harness build failed"; wait $P || true; exit 2; }
  wait $P || { tail -40 "$T/bin.log"; echo "splr build failed"; exit 2; }
  [ "$1" != all ] || checked
fi
echo "$H_NOW" > "$T/.tree"
