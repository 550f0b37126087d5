#!/bin/bash
# trybug.sh ID [PROP...] : run checks against a planted bug in a scratch copy of the sources
ID=$1; shift; D=/verif/seeded/$ID
P=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
W=$(mktemp -d); mkdir "$W/r"; cp -a /repo/src "$W/r/src"; (cd "$W/r" && git init -q . && git apply "$D/patch.diff") || exit 9
for p in $P; do echo "== $ID $p"; (cd /verif && BDV_REPO="$W/r" BDV_EVIDENCE="$W/ev" python3-vt -m bdv.check $p 2>&1 | grep -v '^  ' | tail -${TAILN:-4}); done
rm -rf "$W"
