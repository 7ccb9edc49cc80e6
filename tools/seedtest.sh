#!/bin/bash
# seedtest.sh ID...: confirm planted changes in a scratch copy of /repo: the patch applies, the
# stable tests pass with it, the demonstration passes without it and fails with it.
for id in "$@"; do
  S=$(cd "$(dirname "$0")/.." && pwd)/seeded/$id
  W=/tmp/seedrepo-$id
  rm -rf "$W"; cp -a "${VERIF_REPO:-/repo}" "$W"
  sed "s#/repo#$W#g" /opt/vp/test.sh > /tmp/seedtest-$id.sh
  mkdir -p "/tmp/seeddemo-$id"; cp -a "$S/." "/tmp/seeddemo-$id/"; rm -f /tmp/seeddemo-$id/patch.diff
  (cd "$W" && PYTHONPATH="$W" bash /tmp/seeddemo-$id/demo.sh >/tmp/seed-$id.demo0 2>&1); d0=$?
  git -C "$W" apply "$S/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$W"; continue; }
  (cd "$W" && PYTHONPATH="$W" bash /tmp/seeddemo-$id/demo.sh >/tmp/seed-$id.demo1 2>&1); d1=$?
  bash /tmp/seedtest-$id.sh /tmp/seed-$id.json >/tmp/seed-$id.log 2>&1
  python3 - "$id" $d0 $d1 <<'P'
import json, sys
i, d0, d1 = sys.argv[1:]
b = json.load(open("/opt/vp/BASELINE.json"))
r = json.load(open("/tmp/seed-%s.json" % i))
stable = b.get("stable") or b.get("passed") or b.get("stable_passing") or b.get("tests")
passed = set(r.get("passed", []))
miss = [t for t in stable if t not in passed]
print("%s: demo clean=%s patched=%s, stable tests failing: %d %s -> %s" % (
    i, d0, d1, len(miss), miss[:3], "OK" if d0 == "0" and d1 != "0" and not miss else "BAD"))
P
  rm -rf "$W" "/tmp/seeddemo-$id" "/tmp/seedtest-$id.sh"
done
