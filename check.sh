#!/bin/bash
# ./check.sh <property> [--replay FILE | --case N]
# Builds the check of one property against /repo's current working tree, with
# the md_recover_verif hook on, and runs it.
cd "$(dirname "$0")" || exit 2
. ./env.sh
id="$1"; shift
bin="$(echo "$id" | tr 'A-Z' 'a-z')"
# Two builds: with debug assertions and overflow checks, where everything is run,
# and one as users have it ("shipped"), where a part of it is run again.
case "$1" in
    --replay) grep -qs '"build": "shipped"' "$2" && MDV_BUILD=shipped ;;
esac
fail() {
    tail -n 60 "$1" >&2
    echo "$id: INCONCLUSIVE: the check does not build against /repo" >&2
    exit 2
}
# build PROFILE ARGS...: one retry, as a build that a low memory condition ended
# is not a result.
build() {
    local profile="$1" log="$MDV_ROOT/.build/$bin-$1-${*: -1}.log"; shift
    local c=(cargo build --offline -q --manifest-path harness/Cargo.toml --profile "$profile" "$@")
    "${c[@]}" 2>"$log" || "${c[@]}" 2>"$log" || fail "$log"
}
prepare() {
    build "$1" -p mdv --bin "$bin"
    case "$id" in C12|C13) build "$1" -p md-recover-cli --bin md-recover ;; esac
}
case "$id" in C12|C13)
    cc -O1 -shared -fPIC -o "$MDV_ROOT/.build/libmdvpreload.so" harness/preload.c -ldl \
      || { echo "$id: INCONCLUSIVE: the preload library does not build" >&2; exit 2; }
      ;;
C11|C21) build plain -p mdv --bin deep ;;
esac
if [ "$MDV_BUILD" = shipped ]; then
    export MDV_BUILD
    prepare shipped
    exec "$CARGO_TARGET_DIR/shipped/$bin" "$@"
fi
unset MDV_BUILD
if [ $# = 0 ] && [ -z "$MDV_SCALE" ]; then
    prepare shipped
    scale=0.1; [ "$VERIF_TIER" = thorough ] && scale=0.02
    out="$(MDV_BUILD=shipped MDV_SCALE=$scale "$CARGO_TARGET_DIR/shipped/$bin")"
    if [ $? = 1 ]; then
        echo "$out"
        exit 1
    fi
    export MDV_SHIPPED="$(echo "$out" | sed -n 's/^cases in the shipped build: //p')"
fi
prepare dev
exec "$CARGO_TARGET_DIR/debug/$bin" "$@"
