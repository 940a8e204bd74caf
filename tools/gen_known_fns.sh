#!/bin/bash
# Regenerates contracts/known_fns.txt: the functions of the current tree that have no contract.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
cd $V/extract && CARGO_TARGET_DIR=$V/target/extract cargo build --release --offline --quiet
for f in "" mdns dnssec mdns,dnssec; do
  $V/target/extract/release/extract /repo/src $V/contracts /tmp/kf.rs /tmp/kf.map --features "$f"
  awk -F'\t' '$1=="fn" && $5=="nocontract"{print $2}' /tmp/kf.map
done | sort -u > $V/contracts/known_fns.txt
rm -f /tmp/kf.rs /tmp/kf.map
