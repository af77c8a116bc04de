"""drv.py file.c secs [seed]: build and run one driver (uses registry settings when registered)"""
import sys, os
sys.path.insert(0, '/verif')
from vc import runner
from vc.registry import PROPS
pid = sys.argv[1].upper()
log = []
d = dict(PROPS[pid]['driver'])
r = runner.run_driver(pid, d, int(sys.argv[3]) if len(sys.argv) > 3 else 1, float(sys.argv[2]), log)
print('\n'.join(log)[-6000:])
print(r['status'], r['evals'], r['distinct'], r['known'])
for x in r.get('fails', [])[:5]: print('FAIL', x[:1500])
if '-v' in sys.argv: print(r['out'][-6000:])
elif r['status'] == 'fail': print(r.get('out','')[-1500:])
