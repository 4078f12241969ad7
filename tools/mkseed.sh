#!/bin/bash
# development aid: mkseed.sh id property "needs" "what": takes the diff of /tmp/seededit (a copy of /repo) as patch; demo files must be in /verif/seeded/id
id=$1; d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/seededit diff > $d/patch.diff
python3 - "$2" "$3" "$4" > $d/meta.json <<'P'
import sys,json
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
git -C /tmp/seededit checkout -q -- .
wc -l $d/patch.diff
