#!/bin/bash
# Build everything the checks share, so that each check only rebuilds what changed in /repo.
cd "$(dirname "$0")" || exit 3
. ./env.sh
mkdir -p out evidence
for c in mc/*/Cargo.lock; do
  cargo build --offline --manifest-path "${c%.lock}.toml" || exit 1
done
