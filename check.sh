#!/bin/bash
# check.sh <property>: builds the monitors against /repo's working tree and runs one property's check.
# Exit 0: held. Exit 1 and a VIOLATION line: broken. Anything else: the check itself failed.
id=${1:?usage: check.sh PROPERTY}
cd "$(dirname "$0")" || exit 3
export VERIF_ROOT=$PWD
export PATH="$PATH:/root/.cargo/bin:/usr/local/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS RUST_BACKTRACE MIRIFLAGS
export CARGO_TARGET_DIR=$PWD/harness/target
mkdir -p evidence
rm -f evidence/"$id".json evidence/replay-"$id"-*
T=$CARGO_TARGET_DIR
# cargo judges freshness by modification time: always rebuild the code under test
find "$T" -maxdepth 7 \( -path '*/.fingerprint/crylib-*' -o -path '*/.fingerprint/turtls-*' -o -path '*/build/crylib' -o -path '*/build/turtls' \) -prune -exec rm -rf {} + 2>/dev/null

build() { # build <log name> cargo arguments...
    local log=$T/build-$1.log
    shift
    mkdir -p "$T"
    (cd harness && cargo "$@") >"$log" 2>&1 || {
        echo "build failed: cargo $*"
        tail -n 40 "$log"
        exit 2
    }
}

case $id in
C0[1-9])
    build "$id" build --offline -p cmon
    exec "$T/debug/cmon" "$id"
    ;;
C10)
    build "$id" build --offline --release -p cmon
    exec "$T/release/ct"
    ;;
C11) . ./c11.sh ;;
T0[1-9] | T1[01235] | T18)
    build "$id" build --offline -p tmon
    exec "$T/debug/tmon" run "$id"
    ;;
T14) . ./c14.sh ;;
T16) . ./c16.sh ;;
T17) . ./c17.sh ;;
*)
    echo "unknown property $id"
    exit 3
    ;;
esac
