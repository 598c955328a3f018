#!/bin/bash
# tools/seed.sh ID...: confirm planted bugs in a scratch copy (build, stable tests, demo both ways),
# then run the property's quick check against each in /repo (apply, check, undo).
set -u
W=/tmp/seedw; export DEMO_TARGET_DIR=/tmp/seedt
cd "$(dirname "$0")/.."
V="$PWD"
[ -d $W ] || cp -a /repo $W
git -C $W fetch -q /repo HEAD && git -C $W checkout -q -f FETCH_HEAD && git -C $W checkout -q -- .
for id in "$@"; do
  S="$V/seeded/$id"; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  [ -f "$S/demo.sh" ] || { cp "$V/tools/demo_template.sh" "$S/demo.sh"; chmod +x "$S/demo.sh"; }
  R="$id[$P]:"
  if [ "${ONLY_CHECK:-}" = "" ]; then
    (cd $W && bash "$S/demo.sh" >/tmp/seed.$id.clean 2>&1); R="$R demo-clean=$?"
    git -C $W apply "$S/patch.diff" || { echo "$R patch does not apply"; continue; }
    (cd $W && bash "$S/demo.sh" >/tmp/seed.$id.bad 2>&1); R="$R demo-bug=$?"
    if [ "${NOTEST:-}" = "" ]; then
    (. /opt/vp/env.sh; cd $W && timeout 900 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 --skip check_matrix_tseq_perf >/tmp/seed.$id.test 2>&1)
    R="$R tests=$(python3 - <<P
import re,json
t=open('/tmp/seed.$id.test').read()
f=set(re.findall(r'^test (\S+)(?: - should panic)? \.\.\. FAILED',t,re.M))|set(x.strip() for x in re.findall(r'^test (.*?) \.\.\. FAILED',t,re.M))
f={x for x in f if 'check_node_sampl_4' not in x}
ok=len(re.findall(r'\.\.\. ok$',t,re.M))
print(f"{ok}ok/fail:{sorted(f)[:3]}")
P
)"
    fi
    git -C $W checkout -q -- .
  fi
  git -C /repo diff --quiet || { echo "/repo dirty"; exit 1; }
  git -C /repo apply "$S/patch.diff"
  ./check.sh $P quick >/tmp/seed.$id.check 2>&1; R="$R check=$?"
  git -C /repo checkout -q -- .
  echo "$R $(grep -h '^violated' /tmp/seed.$id.check | cut -c1-150)"
done
