# sourced by check.sh: the same cases in several builds, each run's digests judged by `cmon C11`
D=$T/c11
rm -rf "$T/c11"
mkdir -p "$D"
export ASAN_OPTIONS=detect_leaks=1:abort_on_error=0
if [ "$VERIF_TIER" = thorough ]; then
    div=1 adiv=1 sdiv=10 lim=7200
    miri=(sha2=150 sha2-lengths=60 mac=60 aead-enc=120 aead-dec=50 aead-bits=6 ubig=300 big=300 field=20 curve=6 curve-const=1 curve-mul=12 curve-small=4 ecdsa-sign=12 ecdsa-verify=3 ecdsa-special=8)
else
    div=8 adiv=16 sdiv=60 lim=400
    miri=(sha2=16 sha2-lengths=8 mac=5 aead-enc=12 aead-dec=4 ubig=30 big=30 field=1 curve=1 curve-const=1 curve-mul=2 curve-small=1 ecdsa-sign=2 ecdsa-special=1)
fi
build c11-checked build --offline -p cmon
build c11-release build --offline --release -p cmon
(
    cd harness || exit 1
    RUSTFLAGS=-Zsanitizer=address cargo +nightly build --offline -p cmon --bin cmon --target x86_64-unknown-linux-gnu --target-dir "$T/asan"
) >"$D/build-asan.err" 2>&1
echo $? >"$D/build-asan.rc"
"$T/debug/cmon" consts "$D/consts"
one() { # one <name> <command>...
    local n=$1
    shift
    timeout $lim "$@" >"$D/$n.out" 2>"$D/$n.err"
    echo $? >"$D/$n.rc"
}
one checked "$T/debug/cmon" digest 8 $div 0 "$D/checked.dig"
one release "$T/release/cmon" digest 8 $div 0 "$D/release.dig"
one asan "$T/asan/x86_64-unknown-linux-gnu/debug/cmon" digest 8 $adiv 0 "$D/asan.dig"
# the same cases again, without other threads
one solo1 "$T/debug/cmon" digest 1 $sdiv 0 "$D/solo1.dig" &
one solo2 "$T/release/cmon" digest 1 $sdiv 0 "$D/solo2.dig" &
wait
# the interpreter: one process per workload
export MIRIFLAGS=-Zmiri-disable-isolation REFC_CONSTS=$D/consts
(cd harness && cargo +nightly miri run --offline -q -p cmon --bin cmon --target-dir "$T/miri" -- consts /dev/null) >"$D/build-miri.err" 2>&1
echo $? >"$D/build-miri.rc"
cd harness || exit 2
export T D lim
export -f one
i=0
printf '%s\n' "${miri[@]}" | while read -r w; do
    i=$((i + 1))
    echo "$i $w"
done | xargs -P 8 -L 1 bash -c '
    one small$0 "$T/debug/cmon" digest 1 1 1 "$D/small$0.dig" $1
    one miri$0 cargo +nightly miri run --offline -q -p cmon --bin cmon --target-dir "$T/miri" -- digest 1 1 1 "$D/miri$0.dig" $1'
unset REFC_CONSTS
exec "$T/debug/cmon" C11 "$D"
