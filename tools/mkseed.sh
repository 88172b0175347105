#!/bin/bash
# mkseed.sh ID PROP NEEDS BREAKS < demo body ; the change is /repo's working tree (then undone)
id=$1; d=/verif/seeded/$id; mkdir -p $d
git -C /repo diff > $d/patch.diff; git -C /repo checkout -- .
test -s $d/patch.diff || { echo "no change"; exit 1; }
python3 - "$2" "$3" "$4" > $d/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
cp /verif/tools/demo/demo.c /verif/tools/demo/lib.sh $d/
cat > $d/demo.sh
