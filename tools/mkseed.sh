#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks": takes the diff of /tmp/w/repo against HEAD and the demo
# files of /tmp/w/demo as a new planted bug. Development tool.
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/w/repo diff > $d/patch.diff
cp /tmp/w/demo/* $d/
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
git -C /tmp/w/repo checkout -q -- .
