#!/bin/bash
# plant_ns.sh LOG ids...: plant.py verify in a private mount namespace over copies of /repo, /opt/vp and /verif
log=$1; shift
t=$(mktemp -d /tmp/pn.XXXXXX)
cp -a /repo $t/repo; cp -a /opt/vp $t/vp; cp -a /verif $t/verif
git -C $t/repo checkout -q -- .
unshare -Urm bash -c "mount --bind $t/repo /repo && mount --bind $t/vp /opt/vp && mount --bind $t/verif /verif && cd /verif && python3 tools/plant.py verify $*" > $log 2>&1
rm -rf "$t"
