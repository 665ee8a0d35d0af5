#!/bin/bash
# seed.sh validate <seed>   : confirm a planted change (applies, builds, suite passes, demo 0/nonzero) in a scratch copy
# seed.sh run <seed> [IDs]  : run the checks (default: the seed's property) against a scratch copy with the change applied
. /opt/vp/env.sh
mode=$1; id=$2; shift 2
here=/verif/seeded/$id
wt=$(mktemp -d /tmp/seedwt.XXXXXX); trap 'rm -rf "$wt"' EXIT
cp -a /repo "$wt/repo"; cd "$wt/repo" || exit 2
git checkout -q -- . ; git clean -fdq
case $mode in
validate)
  cp -r "$here" "$wt/demo"; rm -f "$wt"/demo/*.diff "$wt"/demo/meta.json
  ( timeout 300 bash "$wt/demo/demo.sh" ) >"$wt/d0.log" 2>&1; a=$?
  git apply --check "$here/patch.diff" && git apply "$here/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
  go build ./... || { echo "$id: no build"; exit 1; }
  ( timeout 300 bash "$wt/demo/demo.sh" ) >"$wt/d1.log" 2>&1; b=$?
  p='^TestParseCredentialWithResource$'
  go test -json -vet=off -count=1 -skip "$p" ./... 2>/dev/null >"$wt/t.json"
  go test -json -vet=off -count=1 -run "$p" ./verifiable 2>/dev/null >>"$wt/t.json"
  python3 - "$wt/t.json" <<'P'
import json,sys
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ok=set()
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except: continue
    if d.get('Action')=='pass' and d.get('Test'): ok.add(d['Package']+'/'+d['Test'])
m=sorted(st-ok)
print('missing tests:',len(m),m[:5])
sys.exit(1 if m else 0)
P
  t=$?
  echo "$id: demo clean=$a patched=$b suite=$t"
  [ $a -ne 0 ] && tail -5 "$wt/d0.log"
  [ $a -eq 0 ] && [ $b -ne 0 ] && [ $t -eq 0 ] && echo "$id: VALID" || { echo "$id: INVALID"; tail -5 "$wt/d1.log"; }
  ;;
run)
  git apply "$here/patch.diff" || exit 2
  ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(python3 -c "import json;print(json.load(open('$here/meta.json'))['property'])"))
  cd /verif/harness
  cp go.sum "$wt/x.sum"; sed "s#=> /repo\b#=> $wt/repo#" go.mod >"$wt/x.mod"
  for i in "${ids[@]}"; do
    l=$(echo "$i" | tr A-Z a-z); race=""; [ -f cmd/$l/RACE ] && race=-race
    go build $race -modfile="$wt/x.mod" -o "$wt/$l" ./cmd/$l || { echo "$id vs $i: BUILD FAIL"; continue; }
    VERIF_SEED=1 VERIF_TIER=${TIER:-quick} VH_EVDIR="$wt/ev" "$wt/$l" >"$wt/out" 2>&1; rc=$?
    grep -q "^VIOLATION property=$i" "$wt/out" && [ $rc -eq 1 ] && echo "$id vs $i: CAUGHT $(grep -m1 -o 'key=.*' "$wt/out" | cut -c1-150)" || echo "$id vs $i: missed rc=$rc $(tail -1 "$wt/out" | cut -c1-200)"
  done
  ;;
esac
