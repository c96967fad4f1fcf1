#!/bin/bash
# check.sh ID [tier]: rebuild the simulator against /repo's working tree and run one property's search.
# check.sh replay FILE: rebuild it and run a replay file.
# exit 0: held on everything explored; exit 1 + VIOLATION line: broken; anything else: error.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
export HOME="${HOME:-/root}" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.79.0 RUSTC_WRAPPER= RUSTFLAGS= CARGO_INCREMENTAL=0
[ -d "$HOME/.cargo" ] || export HOME=/root
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:$PATH"
export CARGO_TARGET_DIR="$here/sim/target"
export SIM_ROOT="$here" VERIF_SEED="${VERIF_SEED:-1}"
log="$(mktemp)"
trap 'rm -f "$log"' EXIT
sim="$here/sim/target/debug/sim"
if ! (cd "$here/sim" && cargo build --offline --locked >"$log" 2>&1); then
    tail -40 "$log" >&2
    echo "check.sh: the simulator does not build against /repo" >&2
    exit 2
fi
[ "$id" = build ] && exit 0

typed_build() { # the typed clients in $1
    (cd "$here/sim" && TYPED_CASES="$1/cases.rs" cargo build --offline --locked --features typegen --bin simt >"$log" 2>&1)
}
typed() { # $1 seed, $2 cases, $3 programs of which some must not compile
    dir="$here/sim/target/typed/$1-$2"
    export TYPED_ARGS="$1 $2"
    "$sim" typed-gen "$1" "$2" "$dir" || exit 2
    if ! typed_build "$dir"; then
        mkdir -p "$here/replays"
        out="$here/replays/S15-not-compiled.json"
        suspects="$("$sim" typed-suspects "$dir" "$log" "$2")"
        cp "$log" "$dir/all.log"
        # without cases it must compile; then find the first case that does not
        "$sim" typed-gen "$1" 0 "$dir" || exit 2
        if ! typed_build "$dir"; then
            tail -40 "$log" >&2
            echo "check.sh: the simulator does not build against bluejay-typegen" >&2
            exit 2
        fi
        for i in $suspects; do
            "$sim" typed-gen "$1" "$2" "$dir" "$i" || exit 2
            typed_build "$dir" && continue
            "$sim" typed-replay "$dir" "$log" "$1 $2 0" >"$out"
            echo "the typed clients of case $i do not compile:"
            grep -E -A12 '^error' "$log" | head -40
            echo "VIOLATION property=S15 replay=$out"
            exit 1
        done
        tail -40 "$dir/all.log" >&2
        echo "check.sh: the typed clients compile one by one only" >&2
        exit 2
    fi
    if [ "$3" != 0 ]; then
        "$sim" typed-bad "$1" "$3" "$dir/bad" || exit 2
        (cd "$here/sim" && BAD_CASES="$dir/bad/bad.rs" cargo check --offline --locked --features typegen --bin simbad --message-format=json >"$log" 2>/dev/null)
        if ! "$sim" typed-bad-judge "$dir/bad" "$log" >"$dir/bad/verdict.json"; then
            mkdir -p "$here/replays"
            out="$here/replays/S15-programs.json"
            "$sim" typed-replay "$dir/bad" "$dir/bad/verdict.json" "$1 0 $3" >"$out"
            head -c 3000 "$dir/bad/verdict.json"
            echo
            echo "VIOLATION property=S15 replay=$out"
            exit 1
        fi
        export SIM_EXTRA="$dir/bad/verdict.json"
    fi
}

if [ "$id" = replay ]; then
    if args=$("$sim" typed-args "$2"); then
        typed $args
        grep -q '"tape"\|"known"' "$2" || { echo "not reproduced"; exit 0; }
        exec "$here/sim/target/debug/simt" replay "$2"
    fi
    exec "$sim" replay "$2"
fi
if [ "$id" = S15 ]; then
    case "$tier" in
    thorough) typed "$VERIF_SEED" 24 1500 ;;
    *) typed "$VERIF_SEED" 6 250 ;;
    esac
    sim="$here/sim/target/debug/simt"
fi
rm -f "$log"
exec "$sim" check "$id" "$tier"
