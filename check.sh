#!/usr/bin/env bash
# check.sh setup | check.sh P01 quick|thorough | check.sh replay FILE
# Builds the simulator against /repo's current working tree, and runs one property's check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${REPO:-/repo}
what=${1:?usage: check.sh setup, check.sh P01 quick, or check.sh replay FILE}
[ "$what" = replay ] && set -- replay "$(realpath "$2")" "${@:3}"
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
cd "$here/sim" || exit 2
mkdir -p target

build() {
    # Cargo goes by the times of files, which says little about copies. Their contents decide here.
    local now old
    now=$(cd "$repo" && find . -path ./target -prune -o -path ./.git -prune -o \( -name '*.rs' -o -name 'Cargo.toml' \) -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    old=$(cat target/.repo 2>/dev/null)
    if [ "$now" != "$old" ]; then
        rm -f target/.repo
        cargo clean --offline -q -p node_tree -p node_tree_derive 2>/dev/null
    fi
    rm -f target/.refused
    if ! cargo build --offline -q 2>target/build.log; then
        # When nothing but the declarations of P25 is refused, the other checks do without them.
        if [ "$(grep -A4 '^error' target/build.log | grep -oE -- '--> [^ :]+' | sort -u)" = "--> src/macros.rs" ] &&
            cargo build --offline -q --no-default-features 2>target/build2.log; then
            { echo "build"; grep -A12 '^error' target/build.log | head -60; } > target/.refused
            echo "$now" > target/.repo
            return 0
        fi
        echo "the simulator does not build against $repo:" >&2
        grep -A12 '^error' target/build.log | head -60 >&2
        return 1
    fi
    echo "$now" > target/.repo
}
(
    flock 9
    build
) 9>target/.lock || exit 2

if [ "$what" = P25 ] && [ -e target/.refused ]; then
    # Declarations that are in order, but not accepted.
    mkdir -p "$here/replays" "$here/evidence"
    cp target/.refused "$here/replays/P25-build.replay"
    cat target/.refused
    echo '{"property": "P25", "tier": "'"$tier"'", "seed": '"$seed"', "level": "exploration", "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "declarations that the macros do not accept", "samples": []}, "wall_s": 0, "violations": 1}' > "$here/evidence/P25.json"
    echo "VIOLATION property=P25 replay=$here/replays/P25-build.replay"
    exit 1
fi
if [ "$what" = replay ] && [ "$(head -1 "$2")" = build ]; then
    [ -e target/.refused ] && { cat target/.refused; echo "(replayed: refused)"; exit 1; }
    echo "(replayed: accepted)"
    exit 0
fi

optimised() {
    # The same simulator with the library as in a release build, where a reference that is taken to be the only one
    # to a node or a tree, although it is not, leads to accesses of freed memory.
    CARGO_TARGET_DIR=target/optimised cargo build --offline -q --config 'profile.dev.package.node_tree.opt-level=3' \
        --config 'profile.dev.package.node_tree.codegen-units=1' 2>target/optimised.log
}

case "$what" in
    setup) exit 0;;
    replay)
        if grep -q '^# optimised' "$2"; then
            optimised && exec target/optimised/debug/nt_sim replay "$2" ${3:-}
        fi
        exec target/debug/nt_sim replay "$2" ${3:-};;
    *)
        wall=240
        [ "$tier" = thorough ] && wall=700
        if [ "$what $tier" = "P22 thorough" ]; then
            wall=350
            [ -e target/.optimised ] && [ "$(cat target/.optimised)" = "$(cat target/.repo)" ] || rm -rf target/optimised
            if optimised; then
                cp target/.repo target/.optimised
                target/optimised/debug/nt_sim check "$what" --tier "$tier" --seed "$seed" --evidence "$here/evidence/$what.json" \
                    --replays "$here/replays" --known "$here/known-findings.txt" --wall 150 | tee target/optimised.out
                rc=${PIPESTATUS[0]}
                if [ "$rc" != 0 ]; then
                    sed -n 's/^VIOLATION .*replay=//p' target/optimised.out | while read -r f; do sed -i '1a # optimised build' "$f"; done
                    exit "$rc"
                fi
            fi
        fi
        exec target/debug/nt_sim check "$what" --tier "$tier" --seed "$seed" --evidence "$here/evidence/$what.json" \
            --replays "$here/replays" --known "$here/known-findings.txt" --wall "$wall";;
esac
