#!/bin/bash
# tryplant.sh ID...: confirm planted bugs in a scratch copy and run their property's check against it
. /opt/vp/env.sh
for id in "$@"; do
  s=/verif/seeded/$id
  r=/tmp/plant.$id
  rm -rf "$r"; cp -a /repo "$r"
  cd "$r" || exit 1
  out="$id:"
  bash "$s/demo.sh" >/tmp/plant.log 2>&1 && out="$out demo-clean-ok" || { out="$out DEMO-FAILS-ON-CLEAN"; tail -5 /tmp/plant.log; }
  git apply "$s/patch.diff" || { echo "$id does not apply"; rm -rf "$r"; continue; }
  go build ./... || out="$out NOBUILD"
  go test -vet=off -count=1 ./parser -compatible >/tmp/plant.log 2>&1 && out="$out tests-ok" || { out="$out TESTS-FAIL"; grep -- "--- FAIL" /tmp/plant.log | head -5; }
  bash "$s/demo.sh" >/tmp/plant.log 2>&1 && out="$out DEMO-PASSES-WITH-BUG" || out="$out demo-bug-ok"
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  cd /verif
  GOV_REPO="$r" bin/check "$p" >/tmp/plant.$id.out 2>&1
  out="$out check=$p rc=$? $(grep -o 'VIOLATION.*' /tmp/plant.$id.out | sed 's/replay=[^ ]*//')"
  echo "$out"
  grep '^input\|^FAILED' /tmp/plant.$id.out | head -4 | cut -c1-300
  rm -rf "$r"
done
