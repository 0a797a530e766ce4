#!/bin/bash
# Builds everything the checks use from the committed files (offline).
set -e
cd "$(dirname "$0")"
for d in harness "tool --release"; do
  set -- $d
  cargo build --offline $2 --manifest-path $1/Cargo.toml >/dev/null 2>&1 || cargo build --offline $2 --manifest-path $1/Cargo.toml
done
mkdir -p evidence out
