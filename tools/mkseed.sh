#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks": takes the uncommitted change of /repo as the patch (then undoes it) and demo.rs from stdin
set -e
D=/verif/seeded/$1; mkdir -p $D
git -C /repo diff > $D/patch.diff; [ -s $D/patch.diff ] || { echo "no change in /repo"; exit 1; }
git -C /repo checkout -- .
cat > $D/demo.rs
cp /verif/tools/demo.sh.tmpl $D/demo.sh; chmod +x $D/demo.sh
python3 - "$@" <<'P'
import json,sys
_,i,p,n,b=sys.argv
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(f"/verif/seeded/{i}/meta.json","w"),indent=1)
P
