#!/bin/bash
# bash run.sh PROPERTY            run one check (VERIF_TIER=quick|thorough)
# bash run.sh --replay FILE       run the one case a replay file names
# bash run.sh --build             only build
ROOT=$(cd "$(dirname "$0")" && pwd) || exit 2
export HOME=${HOME:-/root} LANG=${LANG:-C.UTF-8} PATH="/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUSTDOCFLAGS= MC_ROOT=$ROOT
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
export CARGO_TARGET_DIR=$ROOT/mc/target
build() { # $1: extra rustc flags; $2: log
    # cargo decides by mtime: forget what it knows about the crate under test
    find "$CARGO_TARGET_DIR" -maxdepth 3 -type d -path '*/.fingerprint/grenad-*' -exec rm -rf {} + 2>/dev/null
    RUSTFLAGS="$1" cargo build --release --offline --quiet --manifest-path "$ROOT/mc/Cargo.toml" >"$2" 2>&1
}
if [ "$1" = C17 ] || { [ "$1" = --replay ] && grep -q '"property":"C17"' "$2" 2>/dev/null; }; then
    exec bash "$ROOT/c17.sh" "$@"
fi
mkdir -p "$ROOT/mc/work" "$ROOT/evidence"
LOG=$ROOT/mc/work/build.$$.log
if ! build "--cfg grenad_verif -Awarnings" "$LOG"; then
    # A change of the crate that the hooks do not fit: the checks then run without them.
    echo "note: the build with the hooks fails, building without them"
    tail -n 15 "$LOG"
    if ! build "-Awarnings" "$LOG"; then
        tail -n 40 "$LOG"
        rm -f "$LOG"
        echo "ERROR: the harness does not build against /repo"
        exit 2
    fi
fi
bare_build() { # $1: extra rustc flags; $2: log
    find "$ROOT/bare/target" -maxdepth 3 -type d -path '*/.fingerprint/grenad-*' -exec rm -rf {} + 2>/dev/null
    RUSTFLAGS="$1" CARGO_TARGET_DIR=$ROOT/bare/target cargo build --release --offline --quiet --manifest-path "$ROOT/bare/Cargo.toml" >"$2" 2>&1
}
# The crate without its features, for the properties where that is another code path.
bare() { # $1: property, $2: the only case
    if ! bare_build "--cfg grenad_verif -Awarnings" "$LOG" && ! bare_build "-Awarnings" "$LOG"; then
        echo "note: the crate does not build without its features"
        tail -n 15 "$LOG"
        return 0
    fi
    export BARE_OUT=$ROOT/mc/work/bare.$1
    rm -f "$BARE_OUT"
    timeout 200 "$ROOT/bare/target/release/bare-mc" $1 $2 >"$LOG" 2>&1
    local rc=$?
    [ $rc = 0 ] && return 0
    cat "$LOG"
    local p=$ROOT/mc/work/replays/$1-without-features.json
    mkdir -p "$ROOT/mc/work/replays"
    echo "{\"property\":\"$1\",\"family\":\"without-features\",\"case\":\"$(sed -n 's/^FOUND //p' "$LOG")\",\"exit\":$rc}" >"$p"
    echo "VIOLATION property=$1 replay=$p"
    return 1
}
case "$1" in
--build)
    bare_build "--cfg grenad_verif -Awarnings" "$LOG"
    rm -f "$LOG"
    exit 0 ;;
C01 | C02 | C07 | C13)
    bare "$1" || exit 1 ;;
--replay)
    if grep -q '"family":"without-features"' "$2"; then
        bare "$(sed 's/.*"property":"\([A-Z0-9]*\)".*/\1/' "$2")" "$(sed 's/.*"case":"\([0-9]*\)".*/\1/' "$2")"
        exit $?
    fi ;;
esac
rm -f "$LOG"
exec "$CARGO_TARGET_DIR/release/mc" "$@"
