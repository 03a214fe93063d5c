#!/bin/bash
# usage: mkseed.sh ID PROP "needs" "breaks"   (edit made in /tmp/ed by stdin python; demo.rs in /tmp/demo.rs)
id=$1; d=/verif/seeded/$id; mkdir -p $d
cp /tmp/demo_common/demo.sh $d/demo.sh; cp /tmp/demo.rs $d/demo.rs
(cd /tmp/ed && git diff) > $d/patch.diff
python3 - "$@" <<'P'
import json,sys
_,id,p,n,b=sys.argv
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(f"/verif/seeded/{id}/meta.json","w"),indent=1)
P
(cd /tmp/ed && git checkout -q -- .)
