#!/bin/bash
# bugrun.sh BUGID [args]: the bug's check against a copy of the sources with the bug
d=$(mktemp -d /tmp/bug.XXXXXX)
git -C /repo archive HEAD | tar x -C $d
(cd $d && patch -sp1 < /verif/seeded/$1/patch.diff)
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])")
shift
cd /verif && VERIF_REPO=$d python3-vt run_check.py $p "$@"
rm -rf "$d"
