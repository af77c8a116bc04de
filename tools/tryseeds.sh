#!/bin/bash
# tryseeds.sh [-t] id...: apply each seeded change to /repo, (with -t build and run the tests,) run its check, undo
T=0; [ "$1" = -t ] && { T=1; shift; }
cd /verif
[ $# = 0 ] && set -- $(ls seeded)
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  t=-; if [ $T = 1 ]; then bash /opt/vp/test.sh /tmp/ts.json >/dev/null 2>&1; t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));r=json.load(open('/tmp/ts.json'));print(len(r['passed']),len(r['failed']))"); fi
  o=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p 2>&1); c=$?
  git -C /repo checkout -q -- .
  echo "$s $p tests=$t rc=$c $(echo "$o" | grep -a ^VIOLATION) $(echo "$o" | grep -a obligations | tail -1 | cut -c1-110)"
done
