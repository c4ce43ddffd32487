#!/bin/bash
# seedcheck.sh ID [nocheck]: in a scratch copy bound over /repo: demo before, patch, build, tests, demo after, the property's quick check
id=$1; V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$id
p=$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
t=$(mktemp -d /tmp/seedXXXX); cp -a /repo $t/repo; cp -r $S $t/s; rm -f $t/s/*.diff $t/s/meta.json
unshare -m bash -c "
mount --bind $t/repo /repo; cd /repo
bash $t/s/demo.sh >$t/d0 2>&1; a=\$?
git apply $S/patch.diff || echo APPLY-FAILED
bash /opt/vp/test.sh $t/o.json >/dev/null 2>&1
bash $t/s/demo.sh >$t/d1 2>&1; b=\$?
n=\$(python3 -c \"
import json;o=json.load(open('$t/o.json'));s=json.load(open('/opt/vp/BASELINE.json'))['stable'];print(len([x for x in s if x not in o['passed']]))\")
c=-; if [ '$2' != nocheck ]; then python3 $V/run.py $p >$t/c 2>&1; c=\$?; grep -h VIOLATION $t/c | head -2; fi
echo \"$id ($p): demo clean=\$a patched=\$b (\$(tail -1 $t/d1)) stable tests lost=\$n check exit=\$c\"
"
rm -rf $t
