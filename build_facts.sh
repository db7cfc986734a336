#!/bin/bash
# Build the MIR dumper (if stale) and dump facts for /repo's current working tree.
# usage: build_facts.sh OUTDIR
set -u
V=$(cd "$(dirname "$0")" && pwd)
B=$V/.build
OUT=${1:-$B/facts}
REPO=${ARTEFACTA_REPO:-/repo}
mkdir -p "$B" "$OUT"
unset LD_LIBRARY_PATH RUSTFLAGS RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER
export CARGO_TARGET_DIR=$B/target CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
[ -n "${MIRFACTS_LOCKED:-}" ] || { exec 9>"$B/lock"; flock 9; }
if [ ! -x "$B/mirfacts" ] || [ "$V/driver/mirfacts.rs" -nt "$B/mirfacts" ]; then
  SR=$(rustc +nightly --print sysroot) || exit 3
  rustc +nightly -O --edition 2021 -A warnings "$V/driver/mirfacts.rs" -o "$B/mirfacts.new" -C "link-arg=-Wl,-rpath,$SR/lib" || exit 3
  mv "$B/mirfacts.new" "$B/mirfacts"
fi
rm -f "$OUT"/*.json
# force re-analysis of the workspace crates (cargo's freshness cache would skip the wrapper)
for n in artefacta erreur; do
  find "$B/target" -mindepth 2 -maxdepth 4 \( -name "$n" -o -name "$n-*" -o -name "lib$n-*" \) -exec rm -rf {} + 2>/dev/null
done
cd "$REPO" || exit 3
# --config keeps a build-dir independent of anything in the tree; the lock file must not change
MIRFACTS_OUT=$OUT RUSTC_WORKSPACE_WRAPPER=$B/mirfacts \
  cargo +nightly check --workspace --lib --bins --offline --locked -q 2>"$OUT/cargo.log" || { tail -40 "$OUT/cargo.log" >&2; exit 3; }
for f in artefacta artefacta_bin erreur; do [ -s "$OUT/$f.json" ] || { echo "no facts for $f" >&2; exit 3; }; done
