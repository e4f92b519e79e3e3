# sourced by check.sh: the monitors under ThreadSanitizer
unset RUSTUP_TOOLCHAIN
log=$T/build-$id.log
mkdir -p "$T"
S=$T/tsan
(
    cd harness &&
        RUSTFLAGS="-Zsanitizer=thread" cargo +nightly build --offline -p tmon -Zbuild-std --target x86_64-unknown-linux-gnu --target-dir "$S"
) >"$log" 2>&1 || {
    echo "build failed: ThreadSanitizer"
    tail -n 40 "$log"
    exit 2
}
export TSAN_OPTIONS=halt_on_error=1:exitcode=66
exec "$S/x86_64-unknown-linux-gnu/debug/tmon" run T17
