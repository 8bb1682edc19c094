#!/bin/bash
# tools/trybug.sh ID [--nobuild]: validates seeded/ID in a scratch copy bind-mounted over /repo in a private mount namespace:
# patch applies, builds, stable tests pass, demo 0 before / nonzero after, and reports whether the property's check catches it.
set -u
ID=$1; V=/verif; S=/tmp/bugs/$ID.$$; L=/tmp/bugs/$ID.log
mkdir -p $S; trap "chmod -R u+w $S; rm -rf $S" EXIT
cp -a /repo $S/repo; cp -a $V/seeded/$ID $S/demo; rm -f $S/demo/*.diff
export ID V S L NB=${2:-}
unshare -Urm bash -c '
mount --bind $S/repo /repo || exit 9
cd /repo
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo dirty; git checkout -q -- .; }
[ "$NB" ] || bash /opt/vp/build.sh > $L.build0 2>&1
timeout 300 bash $S/demo/demo.sh > $L.demo0 2>&1; d0=$?
git apply $V/seeded/$ID/patch.diff || { echo "$ID: PATCH FAILS"; exit 1; }
if [ -z "$NB" ]; then bash /opt/vp/build.sh > $L.build 2>&1 || { echo "$ID: BUILD FAILS"; tail -n 20 $L.build; exit 1; }
bash /opt/vp/test.sh /tmp/bugs/$ID.json > $L.test 2>&1; t=$(python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open("/tmp/bugs/$ID.json"))
st=set(b.get("tests") or b.get("stable") or b.get("passed")); print(len(st-set(r["passed"])))
P
); else t=skipped; fi
timeout 300 bash $S/demo/demo.sh > $L.demo1 2>&1; d1=$?
p=$(python3 -c "import json;print(json.load(open(\"$V/seeded/$ID/meta.json\"))[\"property\"])")
c=$(python3 -c "import json;print([c[\"quick_cmd\"] for c in json.load(open(\"$V/MANIFEST.json\"))[\"checks\"] if c[\"property\"]==\"$p\"][0])" 2>/dev/null)
if [ "$c" ]; then mkdir -p $S/v; cp -a $V/. $S/v/ 2>/dev/null; (cd $S/v && timeout 900 $c) > $L.check 2>&1; k=$?; else k=none; fi
echo "$ID property=$p demo_before=$d0 demo_after=$d1 tests_lost=$t check_exit=$k $(grep -c ^VIOLATION $L.check 2>/dev/null)"
'
