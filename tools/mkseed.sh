#!/bin/bash
# mkseed.sh ID: confirms /verif/seeded/ID in a scratch copy of /repo:
# patch applies, builds, stable tests pass, demo passes without and fails with.
id=$1; S=/verif/seeded/$id
W=$(mktemp -d /tmp/seed_XXXXXX); cp -a /repo "$W/repo"; cd "$W/repo"
git checkout -q -- . 
export VP_REPO="$W/repo"
run_demo() { ( cd "$1"; timeout 300 bash $S/demo.sh >/tmp/w/demo.out 2>&1; echo $? ); }
a=$(run_demo /repo)
# apply to /repo itself for tests and demo (paths are fixed), then undo
cd /repo && git apply $S/patch.diff || { echo "$id: patch does not apply"; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$id: build fails"
b=$(run_demo /repo); tail -3 /tmp/w/demo.out
bash /opt/vp/test.sh /tmp/w/seedout.json >/dev/null 2>&1
t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/w/seedout.json'));print(sorted(set(b['stable'])-set(o['passed'])))")
shift
for p in "$@"; do ( cd /verif; timeout 900 bin/check $p quick | grep -v KNOWN | tail -3 ); done
git -C /repo checkout -q -- .
rm -rf "$W"
echo "$id: demo clean=$a patched=$b tests_failed=$t"
