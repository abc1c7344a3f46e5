#!/bin/bash
# ./check.sh <property>          decide one property (tier from VERIF_TIER, seed from VERIF_SEED)
# ./check.sh --replay <file>     re-execute a recorded violation
# ./check.sh --build             only build
# Exit: 0 held on everything explored, 1 violation (VIOLATION line), 2 harness error.
set -u
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
TIER=${VERIF_TIER:-quick}
SEED=${VERIF_SEED:-1}
WHAT=${1:-}
export CARGO_TARGET_DIR=$ROOT/target CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p "$CARGO_TARGET_DIR" "$ROOT/evidence"

# The simulator uses the derive macro on some fifty type definitions
# (sim/src/zoo.rs), all of which compile on a tree where C09 holds. Code that the
# macro generates and the compiler refuses is a round trip that cannot even start:
# a violation of C09, told apart here from a simulator that does not fit the tree.
derive_refused() {
  local log=$CARGO_TARGET_DIR/build.log errs
  grep -q 'could not compile `cbsim`' "$log" || return 1
  errs=$(grep -cE '^error(\[|:)' "$log")
  local own=$(grep -cE '^error: (could not compile|aborting due to)' "$log")
  local der=$(grep -c 'this error originates in the derive macro' "$log")
  [ "$der" -gt 0 ] && [ "$((errs - own))" -le "$der" ]
}

build() { # profile
  (cd "$ROOT/sim" && cargo build --offline --locked --quiet --profile "$1") >"$CARGO_TARGET_DIR/build.log" 2>&1 || {
    grep -E -A12 '^error' "$CARGO_TARGET_DIR/build.log" >&2
    if derive_refused && { [ "$WHAT" = C09 ] || [ "$WHAT" = --replay ]; }; then
      mkdir -p "$ROOT/evidence/replays"
      R=$ROOT/evidence/replays/C09-derive-build.json
      python3 - "$CARGO_TARGET_DIR/build.log" "$R" "$ROOT/evidence/C09.json" "$TIER" "$SEED" <<'PY'
import json, sys
log, replay, ev, tier, seed = sys.argv[1:]
text = open(log, errors="replace").read()
json.dump({"kind": "derive-build", "property": "C09", "class": "derive-build",
           "what": "the code the derive macro generates for a supported definition of sim/src/zoo.rs does not compile",
           "compiler": text[:20000]}, open(replay, "w"), indent=1)
e = {"property": "C09", "tier": tier if tier in ("quick", "thorough") else "quick", "seed": int(seed),
     "level": "exploration", "wall_s": 0.1, "result": "violated", "violations": 1,
     "coverage": {"evaluations": 1, "distinct_nontrivial": 1,
                  "rule": "one build of the simulator's record types; no run could start because the generated code was refused by the compiler",
                  "samples": [text[:2000]]}}
json.dump(e, open(ev, "w"), indent=1)
PY
      echo "VIOLATION property=C09 replay=$R"
      exit 1
    fi
    echo "the simulator does not build against /repo's working tree" >&2
    exit 2
  }
}

# cargo decides by modification times; decide by content instead
STAMP=$( (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
if [ "$(cat "$CARGO_TARGET_DIR/repo.sha256" 2>/dev/null)" != "$STAMP" ]; then
  (cd "$ROOT/sim" && for p in release ship; do cargo clean --offline --quiet --profile $p -p cbored -p cbored-derive; done) >/dev/null 2>&1
  rm -f "$CARGO_TARGET_DIR/repo.sha256"
fi
build release
if [ "$TIER" = thorough ] || [ "${1:-}" = --replay ]; then build ship; fi
echo "$STAMP" >"$CARGO_TARGET_DIR/repo.sha256"

case "${1:-}" in
  --build) exit 0 ;;
  --replay)
    if grep -q '"kind": "derive-build"' "$2"; then echo "held: every definition of the zoo compiles"; exit 0; fi
    exec "$CARGO_TARGET_DIR/release/cbsim" replay "$2"
    ;;
  *) exec "$CARGO_TARGET_DIR/release/cbsim" check --prop "$1" --tier "$TIER" --seed "$SEED" --root "$ROOT" ;;
esac
