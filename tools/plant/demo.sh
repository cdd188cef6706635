#!/bin/bash
# Demonstration: runs the tests of t.rs inside a scratch copy of the crate in
# the current directory.  Exit 0 when they pass.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
export PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:$PATH"
export CARGO_HOME=${CARGO_HOME:-/root/.cargo} RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=$work/target
unset RUSTFLAGS
mkdir -p "$work/target/debug" "$work/crate" || exit 3
for d in build deps .fingerprint; do
  [ -e "$repo/target/debug/$d" ] && cp -a "$repo/target/debug/$d" "$work/target/debug/"
done
cp -a "$repo/src" "$repo/Cargo.toml" "$repo/Cargo.lock" "$work/crate/" || exit 3
mkdir "$work/crate/src/demo"
cp "$here"/*.rs "$work/crate/src/demo/" || exit 3
# What the verification hook shows is what the demonstration uses.
find "$work/crate/src" -name '*.rs' -exec sed -i 's/cfg(md_recover_verif)/cfg(all())/' {} +
printf '\n#[cfg(test)]\nmod demo;\n' >> "$work/crate/src/main.rs"
cd "$work/crate" || exit 3
cargo test --offline demo:: -- --test-threads 4
code=$?
exit $code
