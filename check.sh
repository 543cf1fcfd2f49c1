#!/bin/bash
# check.sh build | run ID [quick|thorough] | replay FILE
# Builds the harness against /repo's working tree, then runs one check.
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
export VERIF_DIR=$V
export CARGO_NET_OFFLINE=true
export RUSTFLAGS=
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR RUSTC_WRAPPER
T=$V/harness/target
build() {
    mkdir -p "$T" || exit 2
    (
        flock 9
        # never trust time stamps of the code under test
        rm -rf "$T"/debug/.fingerprint/henriks-parsing-project-* "$T"/cli/debug/.fingerprint/henriks-parsing-project-*
        if ! cargo build --offline --locked --quiet --manifest-path "$V/harness/Cargo.toml" --target-dir "$T" >"$T/build.log" 2>&1; then
            cat "$T/build.log" >&2
            exit 2
        fi
        if [ "${1:-}" = cli ]; then
            if ! cargo build --offline --locked --quiet --manifest-path /repo/Cargo.toml --bin henriks-parsing-project --target-dir "$T/cli" >"$T/cli.log" 2>&1; then
                cat "$T/cli.log" >&2
                exit 2
            fi
        fi
    ) 9>"$T/.lock" || exit 2
}
case "${1:-}" in
build)
    build cli
    ;;
run)
    if [ "$2" = C22 ]; then build cli; else build; fi
    exec "$T/debug/hpp-verif" run "$2" "${3:-${VERIF_TIER:-quick}}"
    ;;
replay)
    build cli
    exec "$T/debug/hpp-verif" replay "$2"
    ;;
*)
    echo "usage: check.sh build | run ID [quick|thorough] | replay FILE" >&2
    exit 2
    ;;
esac
