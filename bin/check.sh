#!/bin/bash
# usage: check.sh <property> [--workload W --case N]
# Rebuilds the harness from /repo's working tree and runs the monitors of one
# property. Exit 0: held on everything explored. Exit 1 and a VIOLATION line:
# violated. Exit 2: no answer (e.g. the tree does not compile).
set -u
V="$(cd "$(dirname "$0")/.." && pwd)"
ID="$1"; shift
export VERIF_DIR="$V"
export CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
mkdir -p "$V/evidence" "$V/replays" "$V/target"
case "$ID" in
  C17) exec python3 "$V/bin/c17.py" ;;
  C20) exec python3 "$V/bin/c20.py" ;;
  C24) exec python3 "$V/bin/c24.py" ;;
esac

violation() { # text
  local r="$V/replays/$ID.replay"
  { echo "property=$ID"; echo "rerun: VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} bash $V/bin/check.sh $ID"; echo; cat "$1"; } > "$r"
  python3 - "$V" "$ID" "$r" <<'P'
import json, os, sys
v, i, r = sys.argv[1:]
p = f"{v}/evidence/{i}.json"
json.dump({"property": i, "tier": "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick", "seed": 1,
  "level": "exploration", "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the run ended at the first violation", "samples": [open(r).read()[:1500]]},
  "assumptions": [], "wall_s": 0, "violations": 1}, open(p, "w"))
P
  tail -n 40 "$1"
  echo "VIOLATION property=$ID replay=$r"
  exit 1
}

# never trust old build products of the code under test
fresh() { rm -rf "$1"/.fingerprint/infrared-* "$1"/.fingerprint/irmon-* ; }

# build_irmon <log> <fingerprint parent> cargo-args...
build_irmon() {
  local log="$1" dir="$2"; shift 2
  fresh "$dir"
  ( cd "$V/harness" && "$@" ) > "$log" 2>&1
}

check_build() { # rc log
  [ "$1" = 0 ] && return 0
  # Arithmetic overflow while computing an encoder's timing constants is a
  # failure of the library at that frequency, not of the build.
  if grep -q 'error\[E0080\]' "$2" && grep -Eq 'ProtocolEncoder|DATA|encoder' "$2"; then
    case "$ID" in C01|C09|C11|C12) violation "$2" ;; esac
  fi
  # Receivers and senders that can not be handed to another thread
  if [ "$ID" = C23 ] && grep -Eq 'cannot be (sent|shared) between threads safely' "$2"; then
    violation "$2"
  fi
  tail -n 60 "$2"
  echo "INCONCLUSIVE property=$ID the harness does not build against /repo"
  exit 2
}

# run <log> cmd...   : run a monitored binary, map crashes to violations
run() {
  local log="$1"; shift
  "$@" > "$log" 2>&1
  local rc=$?
  case $rc in
    0) cat "$log"; return 0 ;;
    1) cat "$log"; grep -q "^VIOLATION property=$ID " "$log" && exit 1
       grep -Eq 'AddressSanitizer|Undefined Behavior' "$log" && violation "$log"
       exit 2 ;;
    2) cat "$log"; exit 2 ;;
    *) if grep -Eq 'AddressSanitizer|Undefined Behavior' "$log"; then violation "$log"; fi
       case $rc in 132|134|135|136|139) violation "$log" ;; esac
       cat "$log"; echo "INCONCLUSIVE property=$ID monitor ended with $rc"; exit 2 ;;
  esac
}

L="$V/target/logs/$ID"; mkdir -p "$L"

if [ "$ID" = C09 ]; then
  # The sanitizer build goes on beside the plain one
  A="$V/target/asan"
  ( export CARGO_TARGET_DIR="$A" RUSTFLAGS="-Zsanitizer=address"
    build_irmon "$L/build-asan.log" "$A/x86_64-unknown-linux-gnu/release" cargo +nightly build --release --offline --target x86_64-unknown-linux-gnu
    echo $? > "$L/asan.rc" ) &
  APID=$!
fi

if [ "$ID" = C23 ]; then
  # The race detector's build goes on beside the plain one. The std library is not
  # instrumented, so that only reports inside the code under test count.
  A="$V/target/tsan"
  ( export CARGO_TARGET_DIR="$A" RUSTFLAGS="-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer"
    build_irmon "$L/build-tsan.log" "$A/x86_64-unknown-linux-gnu/release" cargo +nightly build --release --offline --target x86_64-unknown-linux-gnu
    echo $? > "$L/tsan.rc" ) &
  APID=$!
fi

if [ "$ID" = C25 ]; then
  # Built with the compiler's coverage instrumentation, which the meter counts
  A="$V/target/cost"
  rm -rf "$A"/x86_64-unknown-linux-gnu/release/.fingerprint/{infrared,ircost}-*
  ( cd "$V/cost" && export CARGO_TARGET_DIR="$A" RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard"
    cargo build --release --offline --target x86_64-unknown-linux-gnu ) > "$L/build.log" 2>&1
  check_build $? "$L/build.log"
  run "$L/run.log" "$A/x86_64-unknown-linux-gnu/release/ircost" C25 "$@"
  exit $?
fi

export CARGO_TARGET_DIR="$V/target"
build_irmon "$L/build.log" "$V/target/release" cargo build --release --offline
check_build $? "$L/build.log"

if [ "$ID" = C09 ]; then
  wait $APID
  check_build "$(cat "$L/asan.rc")" "$L/build-asan.log"
  S=15; [ "${VERIF_TIER:-quick}" = thorough ] && S=30
  mkdir -p "$L/asan"
  VERIF_DIR="$L/asan" VERIF_SCALE=$S ASAN_OPTIONS=detect_leaks=0 "$A/x86_64-unknown-linux-gnu/release/irmon" C09 "$@" > "$L/asan.log" 2>&1
  rc=$?
  if [ $rc != 0 ]; then
    case $rc in 1|132|134|135|136|139) violation "$L/asan.log" ;; esac
    tail -n 30 "$L/asan.log"; echo "INCONCLUSIVE property=C09 sanitizer run ended with $rc"; exit 2
  fi
  sed 's/^/[asan] /' "$L/asan.log"
  if [ "${VERIF_TIER:-quick}" = thorough ] && [ $# = 0 ]; then
    # Undefined-behaviour interpreter, a few processes with seeds of their own
    pids=()
    ( cd "$V/harness" && fresh "$V/target/miri/miri/x86_64-unknown-linux-gnu/debug"
      CARGO_TARGET_DIR="$V/target/miri" MIRIFLAGS=-Zmiri-disable-isolation cargo +nightly miri run --offline -- list ) > "$L/miri-build.log" 2>&1 || { tail -30 "$L/miri-build.log"; echo "INCONCLUSIVE property=C09 miri build"; exit 2; }
    for s in 1 2 3 4 5 6 7; do
      mkdir -p "$L/miri$s"
      ( cd "$V/harness"; export CARGO_TARGET_DIR="$V/target/miri" MIRIFLAGS=-Zmiri-disable-isolation VERIF_TIER=quick VERIF_DIR="$L/miri$s" VERIF_SEED="${VERIF_SEED:-1}$s" VERIF_THREADS=1 VERIF_MAXCASES=12
        cargo +nightly miri run --offline -- C09 > "$L/miri$s.log" 2>&1; echo $? > "$L/miri$s.rc" ) &
      pids+=($!)
    done
    wait "${pids[@]}"
    for s in 1 2 3 4 5 6 7; do
      if [ "$(cat "$L/miri$s.rc")" != 0 ]; then
        if grep -Eq 'Undefined Behavior|^VIOLATION' "$L/miri$s.log"; then violation "$L/miri$s.log"; fi
        tail -20 "$L/miri$s.log"; echo "INCONCLUSIVE property=C09 miri"; exit 2
      fi
      sed 's/^/[miri] /' "$L/miri$s.log" | grep 'C09 tier'
    done
  fi
fi

if [ "$ID" = C23 ]; then
  wait $APID
  check_build "$(cat "$L/tsan.rc")" "$L/build-tsan.log"
  S=10; [ "${VERIF_TIER:-quick}" = thorough ] && S=15
  mkdir -p "$L/tsan"; rm -f "$L/tsan"/race.*
  # where the code under test is, as the reports name it
  R="$(sed -n 's/.*infrared *= *{[^}]*path *= *"\([^"]*\)".*/\1/p' "$V/harness/Cargo.toml" | head -1)"
  R="$(cd "$V/harness" && cd "$R" && pwd)"
  VERIF_DIR="$L/tsan" VERIF_SCALE=$S TSAN_OPTIONS="halt_on_error=0 exitcode=0 report_thread_leaks=0 log_path=$L/tsan/race" \
    "$A/x86_64-unknown-linux-gnu/release/irmon" C23 "$@" > "$L/tsan.log" 2>&1
  rc=$?
  cat "$L/tsan"/race.* > "$L/tsan/races.txt" 2>/dev/null
  python3 - "$L/tsan/races.txt" "$R/src/" > "$L/tsan/lib.txt" <<'P'
import re, sys
t = open(sys.argv[1], errors="replace").read()
for rep in t.split("=================="):
    if "data race" not in rep:
        continue
    # the access itself: the first frames of the two stacks which are not the standard library's
    for st in re.split(r"\n\s*\n", rep):
        fr = [l for l in st.splitlines() if re.match(r"\s*#\d+ ", l) and "/rustlib/src/" not in l and " /rustc/" not in l and "<null>" not in l]
        if re.search(r"(Write|Read|write|read) of size", st) and fr and sys.argv[2] in fr[0]:
            print(rep)
            break
P
  if [ -s "$L/tsan/lib.txt" ]; then head -60 "$L/tsan/lib.txt" > "$L/tsan/first.txt"; violation "$L/tsan/first.txt"; fi
  if [ $rc != 0 ]; then
    case $rc in 1|132|134|135|136|139) violation "$L/tsan.log" ;; esac
    tail -n 30 "$L/tsan.log"; echo "INCONCLUSIVE property=C23 race detector run ended with $rc"; exit 2
  fi
  sed 's/^/[tsan] /' "$L/tsan.log"
  if [ "${VERIF_TIER:-quick}" = thorough ] && [ $# = 0 ]; then
    ( cd "$V/harness" && fresh "$V/target/miri/miri/x86_64-unknown-linux-gnu/debug"
      CARGO_TARGET_DIR="$V/target/miri" MIRIFLAGS=-Zmiri-disable-isolation cargo +nightly miri run --offline -- list ) > "$L/miri-build.log" 2>&1 || { tail -30 "$L/miri-build.log"; echo "INCONCLUSIVE property=C23 miri build"; exit 2; }
    pids=()
    for s in 1 2 3 4 5 6 7; do
      mkdir -p "$L/miri$s"
      ( cd "$V/harness"; export CARGO_TARGET_DIR="$V/target/miri" MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-seed=$s" VERIF_TIER=quick VERIF_DIR="$L/miri$s" VERIF_SEED="${VERIF_SEED:-1}$s" VERIF_THREADS=1 VERIF_MAXCASES=6
        cargo +nightly miri run --offline -- C23 > "$L/miri$s.log" 2>&1; echo $? > "$L/miri$s.rc" ) &
      pids+=($!)
    done
    wait "${pids[@]}"
    for s in 1 2 3 4 5 6 7; do
      if [ "$(cat "$L/miri$s.rc")" != 0 ]; then
        if grep -Eq 'Undefined Behavior|^VIOLATION' "$L/miri$s.log"; then violation "$L/miri$s.log"; fi
        tail -20 "$L/miri$s.log"; echo "INCONCLUSIVE property=C23 miri"; exit 2
      fi
      sed 's/^/[miri] /' "$L/miri$s.log" | grep 'C23 tier'
    done
  fi
fi

run "$L/run.log" "$V/target/release/irmon" "$ID" "$@"
rc=$?
if [ "$ID" = C23 ] && [ $# = 0 ]; then
  python3 - "$V" "$L" <<'P'
import glob, json, sys
v, l = sys.argv[1:]
p = f"{v}/evidence/C23.json"
e = json.load(open(p))
e["coverage"]["tsan"] = json.load(open(f"{l}/tsan/evidence/C23.json"))["coverage"]["observed"]
m = {}
if e["tier"] == "thorough":
    for f in glob.glob(f"{l}/miri[0-9]/evidence/C23.json"):
        for k, n in json.load(open(f))["coverage"]["observed"].items():
            m[k] = m.get(k, 0) + n
    e["coverage"]["miri"] = m
json.dump(e, open(p, "w"), indent=1)
P
fi
if [ "$ID" = C09 ] && [ $# = 0 ]; then
  # what the sanitizer passes saw goes into the evidence as well
  python3 - "$V" "$L" <<'P'
import glob, json, sys
v, l = sys.argv[1:]
p = f"{v}/evidence/C09.json"
e = json.load(open(p))
e["coverage"]["asan"] = json.load(open(f"{l}/asan/evidence/C09.json"))["coverage"]["observed"]
m = {}
if e["tier"] == "thorough":
    for f in glob.glob(f"{l}/miri[0-9]/evidence/C09.json"):
        for k, n in json.load(open(f))["coverage"]["observed"].items():
            m[k] = m.get(k, 0) + n
    e["coverage"]["miri"] = m
json.dump(e, open(p, "w"), indent=1)
P
fi
exit $rc
