#!/bin/bash
# seed.sh ID : confirm a planted bug kept in /verif/seeded/ID (patch.diff, demo.*): applies, builds, passes the stable tests, demo 0/!=0
# Works on a scratch copy bind-free: uses /tmp/seedrepo and rewrites /repo paths in a private copy of build/test scripts.
set -u
ID=$1; D=/verif/seeded/$ID; W=/tmp/seedrepo_$ID
rm -rf "$W"; cp -a /repo "$W"
for f in build.sh test.sh; do sed "s#/repo#$W#g; s#/opt/vp/build.sh#$W/.vpbuild.sh#g" /opt/vp/$f > "$W/.vp$f"; done
sed -i "s#/repo#$W#g" "$W"/_build/Makefile "$W"/_build/config.status 2>/dev/null
grep -rl "/repo" "$W/_build" --include=*.Po --include=Makefile --include=*.d --include=*.status 2>/dev/null | xargs -r sed -i "s#/repo#$W#g"
cd "$W"
bash .vpbuild.sh > .b0.log 2>&1 || { echo "$ID: base build failed"; tail -3 .b0.log; exit 1; }
(cd "$W" && bash "$D/demo.sh" > .d0.log 2>&1); r0=$?
git apply "$D/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
bash .vptest.sh "$W/.out.json" > .t1.log 2>&1
python3 - "$W/.out.json" <<'P' || { echo "$ID: tests fail"; rm -rf "/tmp/seedrepo_$ID"; exit 1; }
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open(sys.argv[1]))['passed'])
if b-o: print('failing:',sorted(b-o)[:5]); sys.exit(1)
P
(cd "$W" && bash "$D/demo.sh" > .d1.log 2>&1); r1=$?
echo "$ID: demo base=$r0 patched=$r1"; [ $r0 -ne 0 ] && tail -5 .d0.log
[ "${KEEP:-}" ] || rm -rf "/tmp/seedrepo_$ID"
[ $r0 -eq 0 ] && [ $r1 -ne 0 ]
