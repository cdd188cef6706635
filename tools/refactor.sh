#!/bin/bash
# refactor.sh DIFF [CHECK...]: a development aid. Applies an edit that changes
# no behaviour to a copy of /repo and runs the checks, of a copy of the working
# tree of /verif, against it: they must stay quiet. SEED and TIER may be set.
diff="$(realpath "$1")"; shift
base="/tmp/refactor.$$"
mkdir -p "$base/verif"
trap 'rm -rf "/tmp/refactor.'$$'"' EXIT
cp -a /repo "$base/repo" 2>/dev/null; git -C "$base/repo" checkout -q -- .
git -C "$base/repo" apply "$diff" || exit 2
(cd "$base/repo" && cargo test -q --offline 2>&1 | grep "test result") || exit 2
(cd /verif && git ls-files -co --exclude-standard -- . ':!seeded' | tar c -T -) | tar x -C "$base/verif"
sed -i "s#path = \"/repo/#path = \"$base/repo/#; s#cd /repo#cd $base/repo#" "$base"/verif/{env.sh,harness/cli/Cargo.toml,harness/shim/Cargo.toml}
cd "$base/verif" || exit 2
for id in ${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28}; do
    if VERIF_SEED=${SEED:-1} VERIF_TIER=${TIER:-quick} timeout 900 ./check.sh "$id" >"$base/out" 2>&1; then
        echo "$id quiet $(tail -1 "$base/out" | grep -o '[0-9.]* s)')"
    else
        echo "$id ALARM $?"; tail -20 "$base/out"
    fi
done
