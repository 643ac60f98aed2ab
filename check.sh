#!/bin/bash
# usage: check.sh Cnn            one property, tier and seed from VERIF_TIER and VERIF_SEED
#        check.sh replay FILE    run a replay file again, with its trace
#        check.sh build
# Builds the simulator against /repo's working tree, in four builds of the library, then runs it.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here/sim" || exit 2
# the allocation-error hook of std and the checks on unchecked accesses are still unstable
export RUSTC_BOOTSTRAP=p2tsim,poly2tri_rs
export RUSTC_WRAPPER="$here/sim/rustc.sh"
export P2T_ROOT="$here"
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
chmod +x rustc.sh 2>/dev/null
t="$here/sim/target"
mkdir -p "$t"
exec 9>"$t/lock"
flock 9

# cargo goes by modification times; go by contents instead
state="$({ find /repo/src /repo/Cargo.toml /repo/Cargo.lock "$here/sim/src" "$here/sim/Cargo.toml" "$here/sim/rustc.sh" -type f -print0 2>/dev/null |
    sort -z | xargs -0 sha256sum; rustc -V; } | sha256sum)"
if [ "$(cat "$t/state" 2>/dev/null)" != "$state" ]; then
    rm -f "$t/state"
    for d in "$t"/*/*/.fingerprint/poly2tri-rs-* "$t"/*/*/.fingerprint/p2tsim-*; do
        [ -d "$d" ] && rm -r "$d"
    done
    one() { # directory, profile, features
        mkdir -p "$t/$1"
        cargo build --offline --target-dir "$t/$1" --profile "$2" $3 >"$t/$1/log" 2>&1
    }
    one shipped shipped "" &
    a=$!
    one checked checked "" &
    b=$!
    one single shipped "--features f32" &
    c=$!
    one plain plain "--features plain" &
    d=$!
    wait $c || rm -f "$t/single/shipped/p2tsim" # single precision is optional: without it, fewer runs
    wait $d || rm -f "$t/plain/plain/p2tsim"
    wait $b
    rb=$?
    wait $a
    ra=$?
    if [ $ra -ne 0 ] || [ $rb -ne 0 ]; then
        grep -hA12 '^error' "$t/shipped/log" "$t/checked/log" >&2
        echo "build failed" >&2
        exit 2
    fi
    echo "$state" >"$t/state"
fi
exec 9>&-
bin="$t/shipped/shipped/p2tsim"
cd "$here" || exit 2
case "${1:-}" in
build) exit 0 ;;
replay) exec "$bin" replay "$2" ;;
*) exec "$bin" check "$@" ;;
esac
