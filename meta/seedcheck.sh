#!/bin/bash
# seedcheck.sh ID [notests]: confirm a planted change in a scratch copy of /repo (development aid, not a check)
id=$1; V=${VROOT:-/verif}; R=${RROOT:-/repo}; S=$V/seeded/$id; W=/tmp/sc-$id
rm -rf "/tmp/sc-$id"; cp -a $R "$W"
cd "$W" && git checkout -q -- . && cp -r "$S" "/tmp/sc-$id/.demo"
PYTHONPATH=$W bash /tmp/sc-$id/.demo/demo.sh >/tmp/sc-$id.demo0 2>&1; r0=$?
git apply "$S/patch.diff" || { echo "$id APPLY-FAILED"; exit 1; }
PYTHONPATH=$W bash /tmp/sc-$id/.demo/demo.sh >/tmp/sc-$id.demo1 2>&1; r1=$?
p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd $V; VSYM_NOEVID=1 VSYM_REPO=$W /opt/venv/bin/python -W ignore run.py $p >/tmp/sc-$id.check 2>&1; rc=$?
t=skipped
if [ "$2" != notests ]; then
  sed "s#/repo#$W#g" /opt/vp/test.sh > /tmp/sc-$id.test.sh
  (cd $W; PYTHONPATH=$W bash /tmp/sc-$id.test.sh /tmp/sc-$id.json >/tmp/sc-$id.log 2>&1)
  t=$(python3 -c "import json;d=json.load(open('/tmp/sc-$id.json'));print(len(d['passed']),'passed')")
fi
echo "$id demo: $r0 -> $r1  check $p exit $rc  tests: $t  $(grep -m1 VIOLATION /tmp/sc-$id.check)"
rm -rf "/tmp/sc-$id"
