#!/bin/bash
# try_seed.sh <seed> [property...]: applies seeded/<seed>/patch.diff to /repo, runs build, tests,
# demonstration and the check(s), and undoes it. For use while developing only.
seed="$1"; shift
d=/verif/seeded/$seed
props="$*"; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$SKIP_CLEAN" ]; then (cd /repo && bash $d/demo.sh >/tmp/demo.log 2>&1); echo "demo on unchanged tree: $?"; fi
git -C /repo apply $d/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { echo "DOES NOT BUILD"; tail -20 /tmp/build.log; exit 2; }
bash /opt/vp/test.sh /tmp/o.json 2>&1 | tail -1
(cd /repo && bash $d/demo.sh >/tmp/demo.log 2>&1); echo "demo with the change: $? $(tail -2 /tmp/demo.log | head -c 300)"
for p in $props; do
  t0=$(date +%s)
  /verif/check.sh $p quick >/tmp/check.log 2>&1; rc=$?
  echo "check $p: exit $rc ($(( $(date +%s)-t0 )) s) $(grep -h VIOLATION -B1 /tmp/check.log | tail -2 | head -c 400)"
done
