#!/bin/bash
# Type-checks /repo's working tree with the MIR-dumping driver and writes the facts to $OUT.
# usage: build.sh OUTDIR
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
OUT=$1
R=${VERIF_REPO:-/repo}
B=${VERIF_BUILD:-$V/.build}
mkdir -p "$OUT" "$B"
SYSROOT=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SYSROOT/lib
DRV=$B/vdriver
STAMP=$(cat "$V/driver/driver.rs" | sha256sum | cut -c1-16)
if [ ! -x "$DRV" ] || [ "$(cat "$B/vdriver.stamp" 2>/dev/null)" != "$STAMP" ]; then
  rustc +nightly -O -A warnings "$V/driver/driver.rs" -o "$DRV.tmp.$$" && mv "$DRV.tmp.$$" "$DRV" && echo "$STAMP" > "$B/vdriver.stamp"
fi
export VDUMP_MODELS=$B/libvmodels.rmeta
if [ ! -f "$VDUMP_MODELS" ] || [ "$V/harness/models.rs" -nt "$VDUMP_MODELS" ]; then
  rustc +nightly --crate-name vmodels --crate-type lib --emit metadata --edition 2021 -Zalways-encode-mir -Zmir-opt-level=0 -Awarnings \
    "$V/harness/models.rs" -o "$VDUMP_MODELS.tmp.$$.rmeta" && mv "$VDUMP_MODELS.tmp.$$.rmeta" "$VDUMP_MODELS"
fi
export CARGO_TARGET_DIR=$B/target
export CARGO_NET_OFFLINE=true
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings"
export RUSTC_WORKSPACE_WRAPPER=$DRV
export VDUMP_ALLOW=$V/harness/allow.txt
export VDUMP_DIR=$OUT
cargo +nightly clean -q --offline --manifest-path "$R/Cargo.toml" -p volaris-crypto -p volaris-tools -p volaris-cli 2>/dev/null || true
cargo +nightly check --workspace --offline --manifest-path "$R/Cargo.toml" -q 2>"$OUT/cargo.err" || { cat "$OUT/cargo.err" >&2; exit 3; }
rmeta() { # path of the metadata written for crate $1
  local o x
  o=$(grep -A1 -x -- --out-dir "$OUT/$1.lib.args" | tail -1)
  x=$(sed -n 's/^extra-filename=//p' "$OUT/$1.lib.args")
  echo "$o/lib$1$x.rmeta"
}
# A root whose operation is no longer there, or has another signature, is left out (its scenarios
# become undecided); the others are still analysed.
H=$OUT/harness.rs
cp "$V/harness/harness.rs" "$H"
for try in 1 2 3 4 5 6; do
  if "$DRV" "$SYSROOT/bin/rustc" --crate-name vharness --crate-type bin --emit metadata --edition 2021 --error-format=short \
    -Zalways-encode-mir -Zmir-opt-level=0 -Awarnings -o "$OUT/vharness.rmeta" \
    -Zunstable-options --extern force:vmodels="$VDUMP_MODELS" --extern corecrypto=$(rmeta volaris_crypto) --extern tools=$(rmeta volaris_tools) \
    -L dependency=$(dirname "$(rmeta volaris_crypto)") $(grep -h -A1 -x -- -L "$OUT/volaris_tools.lib.args" | grep -E '^(dependency|native)=' | sort -u | sed 's/^/-L /') \
    $(grep -h -A1 -x -- --extern "$OUT/volaris_tools.lib.args" | grep -E '^[a-z_0-9]+=' | sed -E 's#^[^=]*=(.*)/[^/]*$#-L dependency=\1#' | sort -u) \
    "$H" 2>"$OUT/harness.err"; then
    rm -f "$OUT/vharness.rmeta" "$H"
    exit 0
  fi
  python3 "$V/harness/prune.py" "$H" "$OUT/harness.err" || break
done
cat "$OUT/harness.err" >&2
exit 4
