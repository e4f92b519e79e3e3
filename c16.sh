# sourced by check.sh: C and C++ programs compiled against the published header and linked to the built library
if [ "$VERIF_TIER" = thorough ]; then n=8000 m=4000; else n=400 m=200; fi
D=$T/capi
mkdir -p "$D"
build "$id" build --offline -p tmon -p turtls
log=$T/build-$id-lib.log
# the library as published
CARGO_PROFILE_DEV_OPT_LEVEL=2 CARGO_PROFILE_DEV_DEBUG=line-tables-only cargo build --offline --locked --manifest-path /repo/Cargo.toml -p turtls --target-dir "$D/lib" >"$log" 2>&1 || { tail -40 "$log"; exit 2; }
S="-fsanitize=address,undefined -fno-sanitize-recover=undefined -g -O1 -Wall -Wextra -pedantic -I/repo/include harness/capi/capi.c"
rm -f "$D/capi-c" "$D/capi-cc" "$D/capi-rng"
{
    gcc -std=c11 -D_GNU_SOURCE $S -o "$D/capi-c" -L"$D/lib/debug" -lturtls -Wl,-rpath,"$D/lib/debug" &&
    g++ -std=c++17 -x c++ $S -x none -o "$D/capi-cc" -L"$D/lib/debug" -lturtls -Wl,-rpath,"$D/lib/debug" &&
    gcc -std=c11 -D_GNU_SOURCE -DSHADOW -Wno-unused-function $S -o "$D/capi-rng" -L"$T/debug" -lturtls -Wl,-rpath,"$T/debug"
} >"$log" 2>&1
cc=$?
export ASAN_OPTIONS=detect_leaks=1:detect_stack_use_after_return=0 UBSAN_OPTIONS=print_stacktrace=1
export TMON_CAPI="$D" TMON_CAPI_CC=$cc TMON_CAPI_LOG=$log TMON_CAPI_N=$n TMON_CAPI_M=$m
exec "$T/debug/tmon" run T16
