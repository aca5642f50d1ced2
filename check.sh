#!/bin/bash
# check.sh <property id> [arguments for the checker]   (see DESIGN.md)
# Rebuilds the checker of one property against /repo's current working tree and runs it.
set -u
id="$1"; shift
here="$(cd "$(dirname "$0")" && pwd)"
export MC_ROOT="${MC_ROOT:-$here}"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
bin="$(echo "$id" | tr A-Z a-z)"
crate=mc profile=release
# Unoptimized: the optimizer turns some recursions into loops.
[ "$id" = C15 ] && profile=plain
[ -f "$here/mc-rayon/src/bin/$bin.rs" ] && crate=mc-rayon
target="$here/target/$crate"
mkdir -p "$target"
exec 9>"$target/.lock"
flock 9
# cargo decides by modification time; decide by content instead.
sum="$(cd /repo && { cat Cargo.toml; find src -type f | LC_ALL=C sort | xargs sha256sum; } | sha256sum)"
if [ "$(cat "$target/.repo-sum" 2>/dev/null)" != "$sum" ]; then
  (cd "$here/$crate" && cargo clean --offline --release -p rpds --target-dir "$target" >/dev/null 2>&1)
  [ "$crate" = mc ] && (cd "$here/$crate" && cargo clean --offline --profile plain -p rpds --target-dir "$target" >/dev/null 2>&1)
  echo "$sum" > "$target/.repo-sum"
fi
if ! (cd "$here/$crate" && cargo build --offline --locked --profile "$profile" --target-dir "$target" --bin "$bin" >"$target/build-$bin.log" 2>&1); then
  tail -40 "$target/build-$bin.log" >&2
  echo "cannot build the checker of $id against /repo" >&2
  exit 2
fi
flock -u 9
exec "$target/$profile/$bin" "$@"
