#!/usr/bin/env python3-vt
"""mut.py file old new module Class [case]: prove a contract on a scratch copy of the sources with one text replaced"""
import sys, os, shutil, tempfile, subprocess
f, old, new = sys.argv[1:4]
d = tempfile.mkdtemp(prefix='mut')
try:
    shutil.copytree('/repo/src', d + '/src')
    p = d + '/src/' + f
    s = open(p).read()
    assert old in s, 'text not found'
    open(p, 'w').write(s.replace(old, new, 1))
    r = subprocess.run(['python3-vt', os.path.dirname(__file__) + '/pv.py'] + sys.argv[4:], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
    out = r.stdout.splitlines()
    bad = [l for l in out if not l.startswith(' ') and ("'fail'" in l or "'unknown'" in l or 'Unsupported' in l or 'Budget' in l or 'NeedInv' in l)]
    print('%d cases, %d not proved' % (len([l for l in out if not l.startswith(' ')]), len(bad)))
    names = sorted(set(l.strip()[:110] for l in out if l.startswith('    ') and not l.startswith('     ')))
    for l in names[:6]: print('   ', l)
    for l in bad[:2]: print(l[:300])
    print(r.stderr[-500:])
finally:
    shutil.rmtree(d)
