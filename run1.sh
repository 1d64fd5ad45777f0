#!/bin/bash
# dev helper: run1.sh unit [verus args]
cd /verif; u=$1; shift
extract/target/release/vx-extract --src ${SRC:-/repo/hydra/src} --contracts contracts --unit units/$u.unit --out /tmp/v/$u.rs --meta /tmp/v/$u.json || exit 1
python3 - <<PY
import json
m=json.load(open('/tmp/v/$u.json'))
for f in m['functions']:
    if f['verify'] and (f['mode']!='verified'): print('!!',f['key'],f['mode'],f['errors'])
if m['missing']: print('missing',m['missing'])
PY
time verus /tmp/v/$u.rs --multiple-errors ${ME:-8} "$@" 2>&1 
