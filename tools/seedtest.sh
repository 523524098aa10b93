#!/bin/bash
# tools/seedtest.sh ID...: confirms planted bugs in a scratch copy of /repo and
# runs the check of their property against it.
for id in "$@"; do
  d=/verif/seeded/$id
  w=/tmp/seedw.$$.$id
  cp -a /repo "$w" || exit 1
  mkdir -p "$w.vp"; cp /opt/vp/* "$w.vp/"
  sed -i "s#^cd /repo#cd $w#" "$w.vp/build.sh" "$w.vp/test.sh"
  sed -i "s#/opt/vp/ginkgo-exec.sh#$w.vp/ginkgo-exec.sh#" "$w.vp/test.sh"
  prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")
  demo=$(mktemp -d); cp "$d"/* "$demo"/; rm -f "$demo"/*.diff "$demo"/meta.json
  r="$id $prop:"
  (cd "$w" && bash "$demo/demo.sh" >"$w.log0" 2>&1) && r="$r demo-ok" || r="$r DEMO-FAILS-CLEAN"
  (cd "$w" && git apply "$d/patch.diff") && r="$r applies" || r="$r DOES-NOT-APPLY"
  bash "$w.vp/build.sh" >"$w.log1" 2>&1 && r="$r builds" || r="$r DOES-NOT-BUILD"
  bash "$w.vp/test.sh" "$w.json" >"$w.log2" 2>&1
  r="$r $(python3 - "$w.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def passed(x):
    if isinstance(x,dict):
        for k in ('passed','pass','stable'):
            if k in x: return set(x[k])
        return {k for k,v in x.items() if v in ('pass','passed',True)}
    return set(x)
miss=passed(b)-passed(o)
print('tests-pass' if not miss else 'TESTS-FAIL:'+','.join(sorted(miss))[:300])
P
)"
  (cd "$w" && bash "$demo/demo.sh" >"$w.log3" 2>&1) && r="$r DEMO-PASSES-WITH-BUG" || r="$r demo-catches"
  if [ -z "$NOCHECK" ]; then
    s=$(date +%s)
    /verif/check "$prop" quick -repo "$w" >"$w.log4" 2>&1; rc=$?
    r="$r check-rc=$rc $(( $(date +%s)-s ))s $(grep -m1 '^VIOLATION' "$w.log4")"
    [ -n "$SHOW" ] && grep "^#" "$w.log4" | head -5
  fi
  echo "$r"
  case "$r" in *[A-Z]-[A-Z]*) tail -n 5 "$w.log0" "$w.log1" "$w.log3";; esac
  rm -rf "$w" "$w.vp" "$w".log* "$w.json" "$demo"
done
