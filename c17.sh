#!/bin/bash
# C17, called by run.sh: the harness built with AddressSanitizer, overflow checks and the
# layout-checking allocator, then a smaller harness interpreted by Miri.
# bash c17.sh C17 | --replay FILE
ROOT=$(cd "$(dirname "$0")" && pwd) || exit 2
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu MC_ROOT=$ROOT
TIER=${VERIF_TIER:-quick}
WORK=$ROOT/mc/work
mkdir -p "$WORK/replays" "$ROOT/evidence"
forget() { find "$1" -maxdepth 5 -type d -path '*/.fingerprint/grenad-*' -exec rm -rf {} + 2>/dev/null; }
LOG=$WORK/c17.$$.log
HOOK="--cfg grenad_verif"

asan_build() { # $1: hooks
    forget "$ROOT/mc/target-asan"
    CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true CARGO_TARGET_DIR=$ROOT/mc/target-asan RUSTFLAGS="$1 --cfg mc_strict -Zsanitizer=address -Awarnings" \
        cargo build --release --offline --quiet --manifest-path "$ROOT/mc/Cargo.toml" --target x86_64-unknown-linux-gnu >"$LOG" 2>&1
}
asan() {
    if ! asan_build "$HOOK"; then
        echo "note: the build with the hooks fails, building without them"
        tail -n 15 "$LOG"
        HOOK=
        if ! asan_build ""; then
            tail -n 40 "$LOG"
            echo "ERROR: the AddressSanitizer harness does not build against /repo"
            rm -f "$LOG"
            exit 2
        fi
    fi
    rm -f "$LOG"
    ASAN_OPTIONS=abort_on_error=1:allocator_may_return_null=1:detect_leaks=0:malloc_context_size=1:quarantine_size_mb=32:thread_local_quarantine_size_kb=256:allocator_release_to_os_interval_ms=-1 \
        "$ROOT/mc/target-asan/x86_64-unknown-linux-gnu/release/mc" "$@"
}
miri() { # arguments of the harness
    CARGO_TARGET_DIR=$ROOT/miri/target RUSTFLAGS="$HOOK -Awarnings" \
        MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-symbolic-alignment-check -Zmiri-disable-isolation" \
        cargo miri run --offline --quiet --manifest-path "$ROOT/miri/Cargo.toml" -- "$@"
}
MEMORY_ERROR='error: Undefined Behavior|error: memory leaked|MEMORY panic|error: abnormal termination|error: the evaluated program'
verdict() { # $1: output file; prints what is wrong, if anything
    grep -E -m1 "$MEMORY_ERROR" "$1"
}

if [ "$1" = --replay ]; then
    if grep -q '"family":"miri"' "$2"; then
        SHARDS=$(sed 's/.*"shards":\([0-9]*\).*/\1/' "$2")
        CASE=$(sed 's/.*"case":\([0-9]*\).*/\1/' "$2")
        T=$(sed 's/.*"tier":"\([a-z]*\)".*/\1/' "$2")
        if grep -q '"shard":' "$2"; then
            miri "$T" "$(sed 's/.*"shard":\([0-9]*\).*/\1/' "$2")" "$SHARDS" >"$WORK/miri.replay" 2>&1
        else
            miri "$T" 0 "$SHARDS" "$CASE" >"$WORK/miri.replay" 2>&1
        fi
        tail -n 40 "$WORK/miri.replay"
        if [ -n "$(verdict "$WORK/miri.replay")" ]; then
            echo "VIOLATION property=C17 replay=$2"
            exit 1
        fi
        exit 0
    fi
    asan --replay "$2"
    exit $?
fi

asan C17
RC=$?
[ $RC = 0 ] || exit $RC

# Miri, in parallel shards.
forget "$ROOT/miri/target"
SHARDS=$(nproc)
[ "$TIER" = thorough ] && LIMIT=3600 || LIMIT=240
T0=$(date +%s)
if ! miri "$TIER" 1000000 1000001 >"$WORK/miri.build" 2>&1; then
    HOOK=
    if ! miri "$TIER" 1000000 1000001 >"$WORK/miri.build" 2>&1; then
        tail -n 30 "$WORK/miri.build"
        echo "ERROR: the Miri harness does not run against /repo"
        exit 2
    fi
fi
export -f miri
export ROOT HOOK
for s in $(seq 0 $((SHARDS - 1))); do
    timeout -k 5 $LIMIT bash -c "miri $TIER $s $SHARDS" >"$WORK/miri.$s" 2>&1 &
done
wait
BAD=0
for s in $(seq 0 $((SHARDS - 1))); do
    W=$(verdict "$WORK/miri.$s")
    [ -n "$W" ] || continue
    CASE=$(grep '^CASE' "$WORK/miri.$s" | tail -n 1)
    R=$WORK/replays/C17-miri-$s.json
    if echo "$W" | grep -q "memory leaked"; then
        echo "{\"property\":\"C17\",\"tier\":\"$TIER\",\"family\":\"miri\",\"shard\":$s,\"shards\":$SHARDS,\"case\":0,\"how\":\"bash /verif/run.sh --replay <this file>\"}" >"$R"
    else
        echo "{\"property\":\"C17\",\"tier\":\"$TIER\",\"family\":\"miri\",\"shards\":$SHARDS,\"case\":$(echo "$CASE" | cut -d' ' -f2),\"how\":\"bash /verif/run.sh --replay <this file>\"}" >"$R"
    fi
    echo "Miri, $CASE"
    grep -E -A12 "$MEMORY_ERROR" "$WORK/miri.$s" | head -n 40
    echo "VIOLATION property=C17 replay=$R"
    BAD=1
done
python3 - "$ROOT" "$SHARDS" "$BAD" $(($(date +%s) - T0)) <<'P'
import json, re, sys
root, shards, bad, secs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
ev = json.load(open(f"{root}/evidence/C17.json"))
done, total, unfinished = {}, {}, 0
for s in range(shards):
    t = open(f"{root}/mc/work/miri.{s}", errors="replace").read()
    m = re.search(r"^DONE (.*)$", t, re.M)
    if not m:
        unfinished += 1
        continue
    for w in m.group(1).split():
        n, x = w.split("=")
        d, tot = map(int, x.split("/"))
        done[n] = done.get(n, 0) + d
        total[n] = tot
ev["coverage"]["miri"] = {"families": {n: {"cases": total[n], "completed": done[n]} for n in done},
                          "shards": shards, "shards_not_finished": unfinished, "wall_s": secs}
ev["coverage"]["traces_validated_against_impl"] += sum(done.values())
ev["coverage"]["cases"] += sum(done.values())
if unfinished:
    ev["coverage"]["exhaustive"] = False
ev["wall_s"] += secs
ev["violations"] += bad
json.dump(ev, open(f"{root}/evidence/C17.json", "w"))
print("Miri:", " ".join(f"{n}={done[n]}/{total[n]}" for n in done), f"{secs} s" + (f", {unfinished} shards not finished" if unfinished else ""))
P
exit $BAD
