#!/bin/bash
# check.sh ID quick|thorough          decide one property on /repo's working tree
# check.sh ID replay TIER SEED CASE   re-run one recorded case
# check.sh build                      build every monitor (setup)
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
export HOME=${HOME:-/root}
here=$(cd -- "$(dirname -- "${BASH_SOURCE[0]}")" && pwd)
export VERIF_ROOT=$here
export CARGO_TARGET_DIR=$here/harness/target
id=$1; tier=${2:-${VERIF_TIER:-quick}}

# Cargo decides by modification times; decide by content instead.
fresh() {
    local h old
    h=$(cd /repo && { find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum)
    old=$(cat "$CARGO_TARGET_DIR/repo.sha" 2>/dev/null)
    if [ "$h" != "$old" ]; then
        find "$CARGO_TARGET_DIR" -maxdepth 7 -type d -name 'rust-systre-*' -path '*/.fingerprint/*' \
            -exec rm -rf {} + 2>/dev/null
        mkdir -p "$CARGO_TARGET_DIR"; echo "$h" > "$CARGO_TARGET_DIR/repo.sha"
    fi
}

# The accessors through which some monitors read results, guarded in /repo. One
# that no longer compiles is left out, and only the monitors that need it are
# affected.
all_hooks="--cfg systre_hooks_symmetries --cfg systre_hooks_setting --cfg systre_hooks_operators --cfg systre_hooks_blocks"
case $id in
    S*) own_hook="--cfg systre_hooks_symmetries" ;;
    C02) own_hook="--cfg systre_hooks_setting" ;;
    C04) own_hook="--cfg systre_hooks_operators" ;;
    I*) own_hook="--cfg systre_hooks_blocks" ;;
    *) own_hook="" ;;
esac

build() {   # build BIN...
    local args=() b
    for b in "$@"; do args+=(--bin "$b"); done
    local log=$CARGO_TARGET_DIR/build.log
    mkdir -p "$CARGO_TARGET_DIR"
    (
        flock 9
        fresh
        cd "$here/harness" || exit 2
        for hooks in "$all_hooks" "$own_hook" ""; do
            RUSTFLAGS="-Awarnings $hooks" cargo build -q --offline --release "${args[@]}" >"$log" 2>&1 && exit 0
            echo "note: building with '$hooks' failed; trying with fewer hooks"
            tail -n 5 "$log"
        done
        tail -n 40 "$log"
        exit 2
    ) 9>"$CARGO_TARGET_DIR.lock"
}

# Builds for the memory monitor: every monitor under AddressSanitizer, and the
# interpreter's build of the monitors it runs.
nightly_flags() {   # extra flags under which the nightly compiler accepts the tree
    local f h hs=("$all_hooks")
    for h in symmetries setting operators blocks; do hs+=("${all_hooks/--cfg systre_hooks_$h/}"); done
    for h in "${hs[@]}" ""; do for f in "$h -Znext-solver=coherence" "$h"; do
        if RUSTFLAGS="-Awarnings $f -Zsanitizer=address" CARGO_TARGET_DIR=$ASAN_TARGET \
            cargo +nightly build -q --offline --release --target "$triple" --bins >"$CARGO_TARGET_DIR/build.log" 2>&1
        then echo "-Awarnings $f"; return 0; fi
    done; done
    return 1
}

build_memory() {
    triple=x86_64-unknown-linux-gnu
    export ASAN_TARGET=$CARGO_TARGET_DIR/asan MIRI_DIR=$CARGO_TARGET_DIR/miri
    export ASAN_DIR=$ASAN_TARGET/$triple/release
    local b pids=() rc=0
    exec 8>"$CARGO_TARGET_DIR.lock.nightly"; flock 8
    cd "$here/harness" || exit 2
    MIRI_RUSTFLAGS=$(nightly_flags) || { tail -n 40 "$CARGO_TARGET_DIR/build.log"; exit 2; }
    export MIRI_RUSTFLAGS
    for b in memory arith graphs cgd groups; do
        RUSTFLAGS=$MIRI_RUSTFLAGS CARGO_TARGET_DIR=$MIRI_DIR MIRIFLAGS= cargo +nightly miri run -q --offline \
            --bin $b -- idle >"$CARGO_TARGET_DIR/miri.log" 2>&1 || { tail -n 40 "$CARGO_TARGET_DIR/miri.log"; exit 2; }
    done
    flock -u 8
}

bin_of() {
    case $1 in
        G08) echo memory ;;
        G*) echo graphs ;;
        S*) echo syms ;;
        A08) echo kinds ;;
        A*) echo arith ;;
        L*) echo lattice ;;
        C*) echo groups ;;
        I*) echo cgd ;;
        *) echo "unknown property $1" >&2; exit 2 ;;
    esac
}

if [ "$id" = build ]; then
    build graphs syms arith kinds lattice groups cgd memory || exit 2
    build_memory || exit 2
    exit 0
fi
bin=$(bin_of "$id") || exit 2
build "$bin" || exit 2
exe=$CARGO_TARGET_DIR/release/$bin
ulimit -c 0
if [ "$bin" = memory ]; then
    build_memory || exit 2
    exec "$exe" run "$id" "$tier"
fi
ulimit -v 4000000
if [ "$tier" = replay ]; then
    exec "$exe" one "$id" "$3" "$4" "$5"
fi
exec "$exe" run "$id" "$tier"
