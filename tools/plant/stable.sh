#!/bin/bash
# stable.sh ID...: run the stable tests in the patched copies /tmp/w/s/<ID>; prints the stable ones that fail
for id in "$@"; do
  d=/tmp/w/s/$id; r=/tmp/w/rep.$id
  mkdir -p $r
  sed -e "s#^REP=.*#REP=$r/reports#" -e "s#^cd /repo#cd $d#" /opt/vp/test.sh > $r/test.sh
  rm -rf $d/build
  timeout 1500 bash $r/test.sh $r/out.json > $r/log 2>&1
  /usr/bin/python3 - $r/out.json $id <<'P'
import json, sys
try:
    o = json.load(open(sys.argv[1]))
except Exception as e:
    print(sys.argv[2], "no result", e); sys.exit()
b = json.load(open("/opt/vp/BASELINE.json"))
def names(x, k):
    v = x.get(k, [])
    return set(v) if isinstance(v, list) else set(v.keys())
st = None
for k in ("stable", "pass", "passed", "tests"):
    if k in b: st = names(b, k); break
pa = None
for k in ("pass", "passed"):
    if k in o: pa = names(o, k); break
print(sys.argv[2], "stable", len(st or []), "failing:", sorted((st or set()) - (pa or set()))[:5])
P
done
