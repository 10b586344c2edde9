#!/bin/bash
# nsplant.sh N ID PROP FILE.py: plant.py in a private mount namespace, on the copies under /tmp/ns/N (development aid)
N=$1; shift
W=/tmp/ns/$N
git -C $W/repo checkout -q -- . ; git -C $W/repo fetch -q /repo HEAD && git -C $W/repo merge -q --ff-only FETCH_HEAD 2>/dev/null
for d in bin spec harness/src known-findings.jsonl; do rsync -a --delete /verif/$d $W/verif/$(dirname $d)/ ; done
mkdir -p $W/tmp; cp $3 $W/tmp/plant_in.py
unshare -Urm bash -c "mount --bind $W/repo /repo; mount --bind $W/verif /verif; mount --bind $W/tmp /tmp; cd /verif; timeout 1500 python3 bin/plant.py $1 $2 /tmp/plant_in.py" 2>&1
mkdir -p /verif/seeded/$1; cp -r $W/verif/seeded/$1/. /verif/seeded/$1/
