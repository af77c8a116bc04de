#!/usr/bin/env python3-vt
"""pv.py module Class [case substring]: prove one contract, print what fails"""
import sys, os, time, collections, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import world
from vc.exec import *
from vc.models import MODELS
m = importlib.import_module('vc.' + sys.argv[1])
c = getattr(m, sys.argv[2])()
for case in c.cases():
    if len(sys.argv) > 3 and sys.argv[3] not in case: continue
    t = time.time()
    models = dict(MODELS); models.update(c.models())
    ex = Exec(world.program(c.mods), c.uses(), models)
    err = ''
    try:
        n = c.verify(ex, case)
    except (Unsupported, Budget, NeedInv) as e:
        err = repr(e); n = '-'
        if os.environ.get('TB'): import traceback; traceback.print_exc()
    cnt = collections.Counter((o.kind, o.status) for o in ex.obls)
    print(c.name, '[%s]' % case, n, dict(cnt), ex.loop_log, '%.1fs' % (time.time() - t), err, set(ex.notes) if ex.notes else '')
    seen = set()
    for o in ex.obls:
        if o.status != 'ok' and (o.name, o.line) not in seen:
            seen.add((o.name, o.line))
            print('   ', o.kind, o.name, o.func, o.line, o.status, '\n      goal', str(o.goal)[:600], '\n      model', str(o.model)[:500])
