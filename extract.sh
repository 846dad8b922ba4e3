#!/bin/bash
# Builds the MIR driver (if needed) and dumps the MIR of /repo's working tree:
#   build/out/f32/jagua_rs.json, build/out/f64/jagua_rs.json, build/out/f32/lbf.json, build/out/f32/lbf-bin.json
# usage: extract.sh [outdir]     Nothing tracked in /repo is written.
set -e
V="$(cd "$(dirname "$0")" && pwd)"
REPO="${VP_REPO:-/repo}"
B="$V/build"
OUT="${1:-$B/out}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
TC="${VP_TOOLCHAIN:-nightly}"
mkdir -p "$B" "$OUT/f32" "$OUT/f64"
SYS="$(rustc +$TC --print sysroot)"
exec 9>"$B/.lock"; flock 9
if [ ! -x "$B/mirdump" ] || [ "$V/driver/main.rs" -nt "$B/mirdump" ]; then
  rustc +$TC -O "$V/driver/main.rs" -o "$B/mirdump.tmp" && mv "$B/mirdump.tmp" "$B/mirdump"
fi
export LD_LIBRARY_PATH="$SYS/lib${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}"
export RUSTC_WORKSPACE_WRAPPER="$B/mirdump"
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS
for c in jagua-rs lbf; do
  if [ ! -f "$REPO/$c/Cargo.lock" ]; then cp "$V/locks/$c.lock" "$REPO/$c/Cargo.lock"; fi
done
run() { # crate-dir outdir cargo-args...
  local d="$1" o="$2"; shift 2
  (cd "$REPO/$d" && VP_OUT="$o" cargo +$TC check --offline -q "$@")
}
T="$B/target"
for t in "$T" "$T/f64"; do rm -rf "$t"/debug/.fingerprint/jagua-rs-* "$t"/debug/.fingerprint/lbf-* "$t"/debug/build/jagua-rs "$t"/debug/build/lbf; done
rm -f "$OUT"/f32/*.json "$OUT"/f64/*.json
CARGO_TARGET_DIR="$T" run jagua-rs "$OUT/f32" --lib
CARGO_TARGET_DIR="$T/f64" run jagua-rs "$OUT/f64" --lib --features double-precision
CARGO_TARGET_DIR="$T" run lbf "$OUT/f32" --lib --bins
for f in f32/jagua_rs.json f64/jagua_rs.json f32/lbf.json f32/lbf-bin.json; do
  [ -s "$OUT/$f" ] || { echo "extract: missing $f" >&2; exit 3; }
done
