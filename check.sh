#!/bin/bash
# check.sh build            build the harness from /repo's working tree
# check.sh <ID>             decide property <ID> (VERIF_SEED, VERIF_TIER)
# check.sh replay <file>    run the case in a replay file
# Exit 0: held. 1: VIOLATION line printed. Anything else: the check itself failed.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
T="$VERIF_DIR/target"
mkdir -p "$T" "$VERIF_DIR/evidence" "$VERIF_DIR/replays"

build() { # extra cargo args
    # the crate is always compiled anew, whatever its files' dates say
    find "$T" -maxdepth 4 -type d -path '*/.fingerprint/*' \
        \( -name 'infrared-*' -o -name 'vcdtool-*' -o -name 'viacargo-*' \) -exec rm -rf {} + 2>/dev/null
    CARGO_TARGET_DIR="$T/harness" cargo build --release --offline --locked \
        --manifest-path harness/Cargo.toml "$@" >"$T/build.log" 2>&1
}

EXTRA=
prepare() { # $1: property, or empty
    build && return 0
    # The encoders are also instantiated at very high rates. Their times are computed at compile
    # time, so a calculation that overflows there shows as an error of constant evaluation.
    if grep -q 'E0080' "$T/build.log"; then
        cp "$T/build.log" "$T/build-hirate.log"
        if build --no-default-features; then
            EXTRA=--no-default-features
            case "${1:-}" in
            C01|C02|C06)
                cp "$T/build-hirate.log" "replays/$1-build.log"
                grep -A6 'E0080' "$T/build-hirate.log" | head -20
                echo "encoders do not compile at some tick rate: overflow in the pulse length calculation"
                echo "VIOLATION property=$1 replay=$VERIF_DIR/replays/$1-build.log"
                VIOL=1
                ;;
            esac
            return 0
        fi
    fi
    # the log of the failed build, for whoever reads the output of the check
    tail -40 "$T/build.log" >&2
    return 1
}

# The coverage-guided search: the same laws in an instrumented build. $1: property, $2: seconds
guided() {
    rm -f "$T/fuzz-$1.json"
    local o t="$T/guided"
    mkdir -p "$t"
    o="$t/hooks-$(sha1sum <harness/cov/hooks.c | cut -c1-12).o"
    gcc -O3 -c harness/cov/hooks.c -o "$o" || return 2
    find "$t" -maxdepth 4 -type d -path '*/.fingerprint/*' -name 'infrared-*' -exec rm -rf {} + 2>/dev/null
    RUSTFLAGS="-C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
        -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-trace-compares \
        -C link-arg=$o" CARGO_TARGET_DIR="$t" cargo build --release --offline --locked --features cov $EXTRA \
        --target x86_64-unknown-linux-gnu --manifest-path harness/Cargo.toml >"$T/build-guided.log" 2>&1 || {
        tail -40 "$T/build-guided.log" >&2
        return 2
    }
    "$t/x86_64-unknown-linux-gnu/release/irpbt" fuzz "$1" "$2"
}

VIOL=0
case "${1:-}" in
build)
    build || { tail -40 "$T/build.log" >&2; exit 2; }
    ;;
replay)
    prepare "" || exit 2
    exec "$T/harness/release/irpbt" replay "$2"
    ;;
C[0-9][0-9])
    prepare "$1" || exit 2
    rm -rf "$T/c21" "$T/c23"
    rm -f "$T/fuzz-$1.json"
    # on every change only where long histories matter most
    case "${VERIF_TIER:-quick}-$1" in
    thorough-C21) secs=0 ;;
    thorough-*) secs="${IRPBT_GUIDED:-300}" ;;
    quick-C04 | quick-C05 | quick-C11 | quick-C18 | quick-C25) secs="${IRPBT_GUIDED:-40}" ;;
    *) secs="${IRPBT_GUIDED:-0}" ;;
    esac
    if [ "$secs" -gt 0 ]; then
        guided "$1" "$secs"
        case "$?" in
        0) ;;
        1) VIOL=1 ;;
        *) exit 2 ;;
        esac
    fi
    "$T/harness/release/irpbt" run "$1"
    rc=$?
    rm -rf "$T/c21" "$T/c23"
    [ "$rc" = 0 ] && [ "$VIOL" = 1 ] && rc=1
    exit "$rc"
    ;;
*)
    echo "usage: check.sh build | <ID> | replay <file>" >&2
    exit 2
    ;;
esac
