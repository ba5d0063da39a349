#!/bin/bash
# tools/tryseed.sh ID [CHECK...]: validates a planted bug in a scratch copy shown as /repo in a private mount namespace,
# and runs the given checks on it.
ID=$1; shift
D=/verif/seeded/$ID
C=/tmp/seed_$ID
if [ -z "$IN_NS" ]; then
  rm -rf "$C"; cp -a /repo "$C"
  IN_NS=1 unshare -m bash "$0" "$ID" "$@"
  rc=$?
  rm -rf "$C"
  exit $rc
fi
mount --bind "$C" /repo || exit 2
cd /repo
[ -f $D/demo.cpp ] || [ -f $D/demo.py ] || echo "no demo source"
bash $D/demo.sh > /tmp/seed_$ID.log 2>&1; a=$?
git apply $D/patch.diff || { echo "$ID PATCH-FAILS"; exit 1; }
bash /opt/vp/test.sh /tmp/seed_$ID.json > /tmp/seed_$ID.build 2>&1 || true
python3 - $ID <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/seed_%s.json'%sys.argv[1]))
miss=[t for t in b if t not in r['passed']]
print(sys.argv[1],'tests', 'OK' if not miss else 'FAIL %s'%miss)
P
bash $D/demo.sh >> /tmp/seed_$ID.log 2>&1; b=$?
echo "$ID demo clean=$a patched=$b"
for k in "$@"; do
  MC_CACHE=/tmp/seed_$ID.cache timeout 900 python3 /verif/run.py $k --quick > /tmp/seed_$ID.$k.out 2>&1; echo "$ID $k exit $? $(grep -m1 VIOLATION /tmp/seed_$ID.$k.out)"
done
rm -rf /tmp/seed_$ID.cache
