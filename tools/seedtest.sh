#!/bin/bash
# tools/seedtest.sh ID...: builds each planted bug in a scratch copy of /repo (own mount namespace), runs the stable tests and the
# demonstration with and without it, then the property's quick check.  Leaves nothing behind.
B=/tmp/sd/base
H=$(git -C /repo rev-parse HEAD)
if [ "$(git -C $B rev-parse HEAD 2>/dev/null)" != "$H" ]; then rm -rf /tmp/sd/base; mkdir -p /tmp/sd; cp -a /repo $B; fi
V=/tmp/sd/vf.$$; mkdir -p $V; cp -a /verif/checks /verif/nmv /verif/spec /verif/driver /verif/tools /verif/known_findings.json $V/
for id in "$@"; do
  s=/verif/seeded/$id; d=/tmp/sd/r.$id; dm=/tmp/sd/d.$id
  rm -rf /tmp/sd/r.$id /tmp/sd/d.$id; cp -a $B $d; mkdir -p $dm; cp -a $s/. $dm/; rm -f $dm/*.diff $dm/meta.json
  if ! git -C $d apply --check $s/patch.diff; then echo "$id: DOES NOT APPLY"; rm -rf $d $dm; continue; fi
  git -C $d apply $s/patch.diff
  ns() { unshare -m --propagation private bash -c "mount --bind $1 /repo; cd /repo; $2"; }
  if [ -z "$SKIPTEST" ]; then
  ns $d "bash /opt/vp/test.sh /tmp/sd/$id.json > /tmp/sd/$id.log 2>&1"
  t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/sd/$id.json'))
m=[x for x in b['stable'] if x not in set(o['passed'])]
print('tests-ok' if not m else 'TESTS FAIL %d: %s' % (len(m), m[:3]))
P
)
  else ns $d "bash /opt/vp/build.sh >/tmp/sd/$id.log 2>&1"; t="tests-skipped"; fi
  timeout 300 unshare -m --propagation private bash -c "mount --bind $B /repo; cd /repo; bash $dm/demo.sh" >/tmp/sd/$id.d0 2>&1 </dev/null; r0=$?
  timeout 300 unshare -m --propagation private bash -c "mount --bind $d /repo; cd /repo; bash $dm/demo.sh" >/tmp/sd/$id.d1 2>&1 </dev/null; r1=$?
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  out=$(cd $V; NMV_REPO=$d VERIF_SEED=${SEED:-1} timeout 900 python3 checks/run.py $p --quick 2>&1); rc=$?
  echo "$id: $t demo-clean=$r0 demo-bug=$r1 check($p)=$rc $(echo "$out" | grep -m1 -A1 VIOLATION | tr '\n' ' ' | cut -c1-260) [$(echo "$out" | tail -1)]"
  rm -rf /tmp/sd/r.$id /tmp/sd/d.$id
done
rm -rf /tmp/sd/vf.$$
