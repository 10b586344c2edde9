#!/bin/bash
# bin/try.sh MODULE CFG [K=V ...] [-- tlc args]: run TLC on a spec with constant overrides, replay its vectors (development aid)
cd /verif/spec; M=$1; C=$2; shift 2
T=/tmp/try.$M.$$; mkdir -p $T
python3 - $C $T/m.cfg "$@" <<'PY'
import sys,re
t=open(sys.argv[1]+'.cfg').read()
for a in sys.argv[3:]:
    if a=='--': break
    k,v=a.split('=',1)
    op='' if v.startswith('<-') else '= '
    t,n=re.subn(r"(?m)^(\s*%s\s*)(=|<-).*$"%re.escape(k),lambda m:m.group(1)+op+v,t)
    assert n,k
open(sys.argv[2],'w').write(t)
PY
while [ $# -gt 0 ] && [ "$1" != "--" ]; do shift; done; shift
NX_OUT=$T/v.nd java -Xmx4g -Xss64m -XX:+UseParallelGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 1 -metadir $T/meta -noGenerateSpecTE -config $T/m.cfg "$@" $M.tla > $T/log 2>&1
grep -nE -A12 "^Error|violated|states generated|^Finished|Parse Error|rror" $T/log | head -${NL:-30}
[ -f $T/v.nd ] || exit 1
cp $T/v.nd /tmp/last.nd
/verif/harness/target/debug/nxh run $T/v.nd $T/rep.json 8 60
cp $T/rep.json /tmp/last.rep.json
python3 - $T/rep.json <<'PY'
import json,sys,collections
r=json.load(open(sys.argv[1]))
for v in r['violations'][:3]: print(json.dumps(v["vector"].get("id"))[:600],"\n   ",(v["result"].get("viol") or str(v["result"]))[:700])
PY
rm -rf $T
