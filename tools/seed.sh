#!/bin/bash
# seed.sh ID [CHECK...]: confirm seeded/ID on /repo (stable tests pass with the patch, demo 0/nonzero)
# and run the named checks (default: the property in meta.json) with the patch applied.
id=$1; shift
V=/verif; S=$V/seeded/$id
cd /repo && git diff --quiet && git diff --cached --quiet || { echo "/repo is dirty"; exit 3; }
undo() { cd /repo && git checkout -q -- . ; }
trap undo EXIT
D=$(mktemp -d); cp -r $S/. $D/
if [ -z "$NOCONFIRM" ]; then
  bash /opt/vp/build.sh >/tmp/seed.build 2>&1
  (cd /repo && bash $D/demo.sh >/tmp/seed.demo0 2>&1); echo "$id demo unchanged: $?"
  git apply $S/patch.diff || { echo "$id: patch does not apply"; exit 3; }
  bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { echo "$id: build fails"; tail -5 /tmp/seed.build; exit 3; }
  (cd /repo && bash $D/demo.sh >/tmp/seed.demo1 2>&1); echo "$id demo patched: $?"
  if [ -z "$NOTEST" ]; then
  bash /opt/vp/test.sh /tmp/seed.t.json >/tmp/seed.test 2>&1
  python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/seed.t.json'))
l=sorted(set(b['stable'])-set(t['passed']));print("$id lost tests:",len(l),l[:5])
PY
  fi
else
  git apply $S/patch.diff || exit 3
fi
rm -rf "$D"
if [ "$NOCHECK" = "" ]; then
  cd $V
  for c in ${@:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}; do
    t0=$(date +%s); ./check $c >/tmp/seed.check.$c 2>&1; rc=$?; echo "$id $c rc=$rc $(( $(date +%s)-t0 ))s $(grep -c VIOLATION /tmp/seed.check.$c)"
  done
fi
cd /repo; git checkout -q -- .
[ -z "$NOCONFIRM" ] && bash /opt/vp/build.sh >/tmp/seed.build 2>&1
exit 0
