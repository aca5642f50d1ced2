#!/bin/bash
# Builds every checker once, so that each check only rebuilds what changed.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
for crate in mc mc-rayon; do
  [ -d "$here/$crate" ] || continue
  (cd "$here/$crate" && cargo build --offline --locked --release --target-dir "$here/target/$crate" --bins)
done
(cd "$here/mc" && cargo build --offline --locked --profile plain --target-dir "$here/target/mc" --bin c15)
