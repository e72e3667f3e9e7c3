#!/bin/bash
# usage: trybugs.sh [-f] ID...   For each planted bug: apply to /repo, build, test, demo, check, undo.
# -f: only apply, run the property's check, undo.  Prints one line per bug. Results in /tmp/plant/ID.log
full=1; [ "${1:-}" = -f ] && { full=0; shift; }
here="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p /tmp/plant
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  d="$here/seeded/$id"; log="/tmp/plant/$id.log"; : >"$log"
  prop="$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")"
  clean=-; bad=-; tests=-
  if [ $full = 1 ]; then (cd /repo && timeout 300 bash "$d/demo.sh") >>"$log" 2>&1; clean=$?; fi
  git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  if [ $full = 1 ]; then
    if bash /opt/vp/build.sh >>"$log" 2>&1; then
      bash /opt/vp/test.sh /tmp/plant/out.json >>"$log" 2>&1
      tests="$(python3 - <<'P'
import json
r=json.load(open('/tmp/plant/out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
def names(x):
    for k in ('stable','tests','passed'):
        if isinstance(x,dict) and k in x: return set(x[k] if not isinstance(x[k],dict) else x[k].keys())
    return set(x)
p=set(r.get('passed',[])) if isinstance(r.get('passed'),list) else {k for k,v in r.get('passed',{}).items()}
miss=names(b)-p
print('ok' if not miss else 'FAIL(%d:%s)'%(len(miss),sorted(miss)[:3]))
P
)"
    else tests=nobuild; fi
    (cd /repo && timeout 300 bash "$d/demo.sh") >>"$log" 2>&1; bad=$?
  fi
  s=$(date +%s)
  (cd "$here" && VERIF_SEED="${VERIF_SEED:-1}" timeout 900 ./check.sh "$prop") >"/tmp/plant/$id.check" 2>&1; rc=$?
  git -C /repo checkout -q -- .
  v=missed; [ $rc = 1 ] && grep -q "^VIOLATION property=$prop " "/tmp/plant/$id.check" && v=caught
  echo "$id $prop tests=$tests demo=$clean/$bad check=$v rc=$rc $(( $(date +%s) - s ))s"
done
