#!/bin/bash
# usage: run_check.sh PROPERTY [TIER]      decides one property on /repo's current working tree
#        run_check.sh --setup              builds the harness
#        run_check.sh --replay FILE        reproduces a recorded violation
# Exit: 0 held, 1 violated (with a VIOLATION line), 2 no answer.
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0 CARGO_INCREMENTAL=1
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR http_proxy https_proxy all_proxy HTTP_PROXY HTTPS_PROXY ALL_PROXY
SEED=${VERIF_SEED:-1}
case $SEED in ''|*[!0-9]*) SEED=1;; esac
mkdir -p "$ROOT/evidence" "$ROOT/replays" "$ROOT/harness/target"

# build PROG_SEED LOG: the harness with the applications of that seed; 0 ok, 1 the generated
# applications do not compile although hyperdrive itself does, 2 anything else
build() {
    cargo_build "$1" "$2" && return 0
    # once more from scratch: an interrupted build can leave unusable incremental state behind
    rm -rf "$ROOT/harness/target/debug/incremental"
    CARGO_INCREMENTAL=0 cargo_build "$1" "$2" && return 0
    if grep -qE '^error(\[E[0-9]+\])?:' "$2" && grep -q 'could not compile `hdsim`' "$2"; then
        # hyperdrive was built: it is the harness that does not compile against it
        return 1
    fi
    return 2
}
cargo_build() {
    (cd harness && HD_PROG_SEED=$1 timeout 600 cargo build --offline --bin hdsim) >"$2" 2>&1
}
bin=harness/target/debug/hdsim

if [ "$1" = --setup ]; then
    build "$SEED" harness/target/build.log; rc=$?
    [ $rc = 0 ] || tail -40 harness/target/build.log
    exit $rc
fi
if [ "$1" = --replay ]; then
    f=$(realpath -- "$2") || exit 2
    case $f in *.log) cat "$f"; exit 1;; esac
    ps=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["prog_seed"])' "$f") || exit 2
    build "$ps" harness/target/build.log || { tail -40 harness/target/build.log; exit 2; }
    exec $bin replay "$f" ${3:+"$3"}
fi

P=$1
TIER=${2:-${VERIF_TIER:-quick}}
[[ $P =~ ^P[0-9][0-9]$ ]] || { echo "usage: run_check.sh PNN [quick|thorough]" >&2; exit 2; }
if [ "$TIER" = thorough ]; then
    ROUNDS=${HD_ROUNDS:-8}; RUNS=${HD_RUNS:-200000}; SECS=${HD_SECS:-420}
else
    TIER=quick; ROUNDS=1; RUNS=${HD_RUNS:-18000}; SECS=${HD_SECS:-180}
fi
parts=()
rm -f "evidence/$P".part*.json
status=0
for ((k = 0; k < ROUNDS; k++)); do
    ps=$((SEED + k))
    log=$ROOT/harness/target/build-$P.log
    build $ps "$log"; rc=$?
    if [ $rc != 0 ]; then
        grep -E '^(error|warning: build failed)' -A7 "$log" | head -60
        # An application that follows the documentation must compile.
        if [ $rc = 1 ] && [ "$P" = P01 ] && grep -q 'src/apps.rs\|apps_gen\|proc-macro derive\|in this derive macro\|#\[derive(FromRequest)\]\|/out/' "$log"; then
            cp "$log" "replays/P01-build-s$ps.log"
            python3 - "$P" "$TIER" "$SEED" "$ps" <<'X'
import json, sys
p, tier, seed, ps = sys.argv[1:]
json.dump({"property": p, "tier": tier, "seed": int(seed), "level": "exploration", "wall_s": 1.0, "violations": 1,
  "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the generated applications are compiled",
               "samples": ["program seed %s: does not compile" % ps]}}, open("evidence/%s.json" % p, "w"), indent=1)
X
            echo "VIOLATION property=P01 replay=$ROOT/replays/P01-build-s$ps.log"
            exit 1
        fi
        echo "run_check: cannot build the harness ($log)"
        exit 2
    fi
    part=evidence/$P.part$k.json
    timeout -k 10 $((SECS + 300)) $bin check --prop "$P" --tier "$TIER" --seed $((SEED + 1000 * k)) --secs "$SECS" --runs "$RUNS" \
        --jobs "${HD_JOBS:-8}" --evidence "$part" --replays "$ROOT/replays" --known "$ROOT/known_findings.txt"
    rc=$?
    [ -f "$part" ] && parts+=("$part")
    if [ $rc != 0 ]; then status=$rc; break; fi
done
[ ${#parts[@]} -gt 0 ] && python3 tools/merge_evidence.py "evidence/$P.json" "$SEED" "${parts[@]}"
[ ${#parts[@]} -gt 0 ] && rm -f "${parts[@]/#/$ROOT/}"
case $status in 0|1) exit $status;; *) exit 2;; esac
