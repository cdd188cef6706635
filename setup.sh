#!/bin/bash
# Builds everything once, so that each check only rebuilds what changed.
cd "$(dirname "$0")" || exit 2
. ./env.sh
cargo build --offline -q --manifest-path harness/Cargo.toml --workspace --bins || exit 1
cargo build --offline -q --manifest-path harness/Cargo.toml -p mdv --profile plain --bin deep || exit 1
cargo build --offline -q --manifest-path harness/Cargo.toml --profile shipped --workspace --bins || exit 1
cc -O1 -shared -fPIC -o .build/libmdvpreload.so harness/preload.c -ldl || exit 1
echo setup done
