#!/bin/bash
# tools/plant.sh ID...   confirm planted bugs in scratch copies of /repo and
# report whether the check of their property catches them.
# (builds /tmp/pl-ID, runs the stable tests, the demo with and without the
# patch, then ./check PROP against the copy)
here=$(cd "$(dirname "$0")/.." && pwd)
one() {
  id=$1; d=$here/seeded/$id; w=/tmp/pl-$id
  rm -rf "/tmp/pl-$id"; mkdir -p "$w"
  (cd /repo && git ls-files -z | xargs -0 cp --parents -t "$w")
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cp -r "$d" "$w/.demo"
  (cd "$w" && timeout 300 bash "$w/.demo/demo.sh" >"$w/.base.log" 2>&1); base=$?
  (cd "$w" && git apply "$d/patch.diff") || { echo "$id: PATCH FAILS"; return; }
  (cd "$w" && timeout 300 bash "$w/.demo/demo.sh" >"$w/.bug.log" 2>&1); bug=$?
  broken="-"
  if [ -z "$NOTEST" ]; then
    sed -e "s#/repo#$w#g" -e "s#/opt/vp/work#/tmp/vpwork#" -e "s#PYTHONPATH=/opt/vp #PYTHONPATH=$w:/opt/vp #" /opt/vp/test.sh >"$w/.test.sh"
    PYTHONPATH=$w bash "$w/.test.sh" "$w/.out.json" >/dev/null 2>&1
    broken=$(python3 -c "
import json
o=json.load(open('$w/.out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print(len(set(b['stable'])-set(o['passed'])), sorted(set(b['stable'])-set(o['passed']))[:3])")
  fi
  VERIF_REPO=$w "$here/check" "$prop" >"$w/.check.log" 2>&1; c=$?
  echo "$id [$prop]: base=$base bug=$bug testsbroken=$broken check=$c $(grep -m1 -o 'clause=.\{0,140\}' $w/.check.log)"
  cp "$w/.check.log" /tmp/last-$id.log
  rm -rf "/tmp/pl-$id"
}
for i in "$@"; do one "$i"; done
