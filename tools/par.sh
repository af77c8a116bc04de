#!/bin/bash
# par.sh module Class : run every case in parallel
cd /verif
python3-vt - "$1" "$2" <<'P' | xargs -d '\n' -P 7 -I{} sh -c "timeout 800 python3-vt tools/pv.py $1 $2 '{}' 2>&1 | cut -c1-700"
import sys; sys.path.insert(0,'/verif')
import importlib
m=importlib.import_module('vc.'+sys.argv[1]); c=getattr(m,sys.argv[2])()
print('\n'.join(c.cases()))
P
