#!/bin/bash
# cs.sh id [prop]: run the C check against a planted bug
id=$1; p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
D=/tmp/cs_$id; rm -rf "$D"; mkdir -p $D/lib/sundials-6.1.1; cp -a /repo/lib/sundials-6.1.1/{src,include,meson.build} $D/lib/sundials-6.1.1/; (cd $D && git init -q . && git apply /verif/seeded/$id/patch.diff)
cd /verif && cp evidence/$p.json /tmp/ev_$p.json 2>/dev/null; CZV_SRC=$D/lib/sundials-6.1.1 timeout 900 python3-vt -m czv.check $p > $D/log 2>&1; rc=$?
echo "$id $p rc=$rc $(grep VIOLATION $D/log)"; head -1 $D/log | cut -c1-250; grep -m1 "failed ob" $D/log|cut -c1-200; grep -m1 "failing inp" $D/log|cut -c1-200;  grep -m2 "bounded only" $D/log|cut -c1-200
cp $D/log /tmp/cs_$id.log; rm -rf $D
