#!/bin/bash
# tools/seed_test.sh ID...   confirms planted changes in a scratch copy and says whether the check of their property sees them
# NOCHECK=1: only confirm; CHECKS="C01 C05": run these checks instead of the property's own
V=$(cd "$(dirname "$0")/.." && pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
W=/tmp/seedtest; mkdir -p $W
rm -rf /tmp/seedtest/repo; cp -a /repo $W/repo
mkdir -p $W/verif
rsync -a --delete --exclude target --exclude evidence --exclude replays --exclude .git --exclude seeded $V/ $W/verif/ 2>/dev/null || { mkdir -p $W/verif; cp -a $V/check.sh $V/sim $V/shim $V/known_findings.txt $V/properties.jsonl $W/verif/; }
rm -rf $W/verif/sim/target
sed -i "s#path = \"/repo\"#path = \"$W/repo\"#" $W/verif/sim/Cargo.toml
mkdir -p $W/verif/evidence $W/verif/replays
for id in "$@"; do
  S=$V/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  cd $W/repo && git checkout -q -- . || exit 2
  bash $S/demo.sh > $W/demo0.log 2>&1; d0=$?
  git apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  r="$id $P: demo-clean=$d0"
  rm -rf .junk; mkdir -p .junk/modifiers .junk/sounds .junk/utils .junk/some/path
  cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > $W/test.log 2>&1 || r="$r TESTS-FAIL($(grep -c '\.\.\. FAILED' $W/test.log))"
  cargo build --offline -q --manifest-path utility/bin2str/Cargo.toml >> $W/test.log 2>&1 || r="$r TOOL-BUILD-FAIL"
  bash $S/demo.sh > $W/demo1.log 2>&1; r="$r demo-bug=$?"
  if [ -z "$NOCHECK" ]; then
    for c in ${CHECKS:-$P}; do
      s=$(date +%s.%N)
      (cd $W/verif && VERIF_REPO=$W/repo VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} ./check.sh $c > $W/check.log 2>&1); rc=$?
      r="$r check[$c]=$rc ($(grep -c "^VIOLATION property=$c " $W/check.log)) $(echo "$(date +%s.%N) - $s" | bc | cut -c1-5)s"
    done
  fi
  echo "$r"
done
cd $W/repo && git checkout -q -- .
