# Sourced by check.sh and setup.sh, from /verif.
export MDV_ROOT="$PWD"
export PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:$PATH"
export CARGO_HOME=/root/.cargo
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$MDV_ROOT/.build/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL
mkdir -p "$CARGO_TARGET_DIR" evidence
# The sources' content decides whether the code under test is rebuilt, not
# modification times.
export MDV_SRC_HASH="$(cd /repo && { find src -type f -print0; find . -maxdepth 1 -name 'Cargo.*' -print0; } | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32)"
