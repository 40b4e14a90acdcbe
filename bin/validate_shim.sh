#!/bin/bash
# Runs /repo's library tests natively with the shim in place of crates.io's binrw (in a scratch copy).
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cp -a /repo/. "$d/repo"; rm -rf "$d/repo/target"
printf '\n[patch.crates-io]\nbinrw = { path = "%s/shim/binrw" }\nbinrw_derive = { path = "%s/shim/binrw_derive" }\n' "$here" "$here" >> "$d/repo/Cargo.toml"
cd "$d/repo"
sed -i 's/#!\[cfg_attr(not(debug_assertions), deny(warnings))\]//' src/lib.rs
CARGO_TARGET_DIR="$d/target" cargo test --offline --no-fail-fast --lib --tests -- --test-threads 1 2>&1 | grep -E "^test result|FAILED|^error" 
