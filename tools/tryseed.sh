#!/bin/bash
# Tries planted bugs in the working tree: demo without, apply, build, tests, demo with, the property's check, restore.
# usage: tryseed.sh ID...   (NOTEST=1 skips build and tests)
for id in "$@"; do d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); r="$id $prop:"
 cd /repo || exit 1; [ -z "$(git status --porcelain -uno)" ] || { echo "repo dirty"; exit 1; }
 timeout 300 bash $d/demo.sh >/tmp/ts.$id.d0 2>&1 && r="$r demo0=ok" || r="$r DEMO0=FAIL"
 git apply $d/patch.diff || { echo "$r patch does not apply"; continue; }
 if [ -z "$NOTEST" ]; then bash /opt/vp/build.sh >/tmp/ts.$id.b 2>&1 && r="$r build=ok" || r="$r BUILD=FAIL"; bash /opt/vp/test.sh /tmp/ts.$id.json >/tmp/ts.$id.t 2>&1; r="$r tests=$(tail -1 /tmp/ts.$id.t)"; fi
 timeout 300 bash $d/demo.sh >/tmp/ts.$id.d1 2>&1 && r="$r DEMO1=PASSES" || r="$r demo1=fails"
 cd /verif; s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py $prop >/tmp/ts.$id.c 2>&1; e=$?; r="$r check=$e ($(( $(date +%s)-s ))s) $(grep -m1 -A1 '^VIOLATION' /tmp/ts.$id.c)"
 git -C /repo checkout -- .; echo "$r"
done
[ -z "$NOTEST" ] && bash /opt/vp/build.sh >/dev/null 2>&1
