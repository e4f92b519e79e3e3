# sourced by check.sh: the monitors under AddressSanitizer with leak detection, then some of the histories in Miri
if [ "$VERIF_TIER" = thorough ]; then lim=7200 per=40; else lim=240 per=3; fi
unset RUSTUP_TOOLCHAIN
log=$T/build-$id.log
mkdir -p "$T"
A=$T/asan
(
    cd harness &&
        RUSTFLAGS=-Zsanitizer=address cargo +nightly build --offline -p tmon --target x86_64-unknown-linux-gnu --target-dir "$A"
) >"$log" 2>&1 || {
    echo "build failed: AddressSanitizer"
    tail -n 40 "$log"
    exit 2
}
X=$A/x86_64-unknown-linux-gnu/debug/tmon
export ASAN_OPTIONS=detect_leaks=1:abort_on_error=0 MIRIFLAGS=-Zmiri-disable-isolation REFC_CONSTS=$T/consts
"$X" consts "$REFC_CONSTS"
# builds the interpreted program (and the interpreter's standard library) once
(cd harness && cargo +nightly miri run --offline -q -p tmon --target-dir "$T/miri" -- consts /dev/null) >"$T/build-$id-miri.log" 2>&1
for k in 0 1 2 3 4 5 6 7; do
    TMON_EXTRA+="cd harness && exec timeout $lim cargo +nightly miri run --offline -q -p tmon --target-dir '$T/miri' -- worker T14 histories @SEED@ $k 8 $((8 * per))"$'\n'
done
export TMON_EXTRA
exec "$X" run T14
