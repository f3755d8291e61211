#!/bin/bash
# tryseed.sh ID [--full]: demo on the clean tree, then (patched) demo and the check of its property; --full: build+tests too.
ID=$1; D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo dirty; exit 9; }
bash $D/demo.sh >/tmp/w/$ID.clean 2>&1; echo "$ID demo clean rc=$?"
git apply $D/patch.diff || exit 9
trap 'git -C /repo checkout -- .' EXIT
bash $D/demo.sh >/tmp/w/$ID.bug 2>&1; echo "$ID demo patched rc=$? $(tail -1 /tmp/w/$ID.bug)"
if [ "$2" = --full ]; then bash /opt/vp/build.sh >/tmp/w/$ID.b 2>&1; bash /opt/vp/test.sh /tmp/w/$ID.json >/tmp/w/$ID.t 2>&1; echo "$ID $(tail -1 /tmp/w/$ID.t)"; fi
S=$(date +%s); VERIF_TIER=quick VERIF_SEED=1 python3 /verif/check.py $P >/tmp/w/$ID.check 2>&1; echo "$ID check $P rc=$? $(( $(date +%s)-S ))s $(grep -h VIOLATION /tmp/w/$ID.check | head -2)"
