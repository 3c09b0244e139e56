#!/bin/bash
# trybug.sh NAME PATCH : runs the stable tests on a scratch copy with the patch
# (seen as /repo in a private mount namespace) and lists stable tests it breaks
N=$1; P=$(realpath "$2"); W=/tmp/plant/$N
rm -rf "/tmp/plant/$N"; mkdir -p "$W"; cp -a /repo "$W/repo"
( cd "$W/repo" && git apply "$P" ) || { echo "patch does not apply"; exit 2; }
unshare -rm bash -c "mount --bind $W/repo /repo; bash /opt/vp/build.sh >$W/build.log 2>&1; echo build \$?; bash /opt/vp/test.sh $W/out.json >$W/test.log 2>&1"
python3 - "$W/out.json" <<'PY'
import json,sys
o=json.load(open(sys.argv[1])); s=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=set(o['passed']); b=[x for x in s if x not in p]
print(len(b),"stable tests broken",b[:5])
PY
rm -rf "/tmp/plant/$N/repo"
