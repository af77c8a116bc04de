"""Runs one property: proofs in parallel, then the driver; writes the evidence file."""
import os, re, sys, time, json, importlib, multiprocessing as mp, traceback, subprocess, tempfile, shutil, collections, signal, resource

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

def job(conn, modname, clsname, cases, deadline):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    from . import term
    for case in cases:
        conn.send(job1(modname, clsname, case, deadline))
        s = term.STATS
        s.lin = s.nia = s.quick = s.cvc5 = 0; s.time = 0
    conn.send(None)
    conn.close()

def job1(modname, clsname, case, deadline):
    from . import world, term
    from .exec import Exec, Unsupported, Budget, NeedInv
    from .models import MODELS
    t0 = time.time()
    res = dict(contract=clsname, case=case, obls=[], error=None, bounded=False, secs=0)
    try:
        m = importlib.import_module('vc.' + modname)
        c = getattr(m, clsname)()
        res['function'] = c.name
        models = dict(MODELS); models.update(c.models())
        ex = Exec(world.program(c.mods), c.uses(), models, deadline=deadline)
        try:
            n = c.verify(ex, case)
            res['paths'] = n
        except (Unsupported, Budget, NeedInv, RecursionError, MemoryError) as e:
            res['error'] = '%s: %s' % (type(e).__name__, e)
        res['obls'] = [dict(kind=o.kind, name=o.name, func=o.func, line=o.line, status=o.status,
                            model=str(o.model)[:1500] if o.model else None,
                            goal=str(o.goal)[:1500] if o.goal is not None and o.status != 'ok' else None) for o in ex.obls]
        res['contracts_used'] = sorted(ex.contracts_used)
        res['models_used'] = sorted(ex.models_used)
        res['inlined'] = sorted(ex.inlined)
        res['loops'] = ex.loop_log
        s = term.STATS
        res['stats'] = dict(lin=s.lin, nia=s.nia, quick=s.quick, time=s.time, cvc5=s.cvc5)
    except Exception as e:
        res['error'] = 'engine: %s: %s' % (type(e).__name__, e)
        res['tb'] = traceback.format_exc()
    res['secs'] = time.time() - t0
    return res

def run_jobs(jobs, limit, total, nproc=8, hurry=None):
    """jobs: [(modname, cls, [cases])]; nothing starts after the total time is used up"""
    out = []
    todo = list(jobs)
    live = []
    t00 = time.time()
    end = t00 + total
    failed = 0
    cut = False
    def lost(j, done, why, secs=0):
        for c in j[2][done:]:
            out.append(dict(contract=j[1], case=c, obls=[], error=why, secs=secs))
    while todo or live:
        if not cut and (hurry is not None and hurry() or failed >= 3):
            # the verdict is settled: finish what is nearly done
            end = min(end, time.time() + 25)
            cut = True
        if time.time() > end:
            for j in todo:
                lost(j, 0, 'Budget: the time for this check was used up')
            todo = []
        while todo and len(live) < nproc:
            j = todo.pop(0)
            r, w = mp.Pipe(False)
            p = mp.Process(target=job, args=(w,) + j + (min(time.time() + limit, t00 + total),))
            p.start(); w.close()
            live.append([p, r, j, time.time(), 0])
        nl = []
        for x in live:
            p, r, j, t, done = x
            gone = not p.is_alive()
            fin = False
            try:
                while r.poll(0):
                    v = r.recv()
                    if v is None:
                        fin = True
                        break
                    out.append(v)
                    done += 1
                    x[4] = done
                    if any(o['status'] != 'ok' for o in v['obls']):
                        failed += 1
            except EOFError:
                gone = True
            if fin:
                p.join()
            elif gone:
                p.join()
                lost(j, done, 'prover died', time.time() - t)
            elif time.time() - t > limit + 20 or time.time() > end + 5:
                p.kill(); p.join()
                lost(j, done, 'Budget: time', time.time() - t)
            else:
                nl.append(x)
        live = nl
        time.sleep(0.02)
    return out

def build_driver(d, drv, log):
    """compile the driver together with the current sources; returns argv prefix or None"""
    src = os.path.join(HERE, 'drivers', drv['src'])
    exe = os.path.join(d, 'drv')
    mpi = drv.get('mpi')
    inc = ['-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(HERE, 'drivers')]
    cfl = ['-g', '-O1', '-w', '-D_GNU_SOURCE', '-U_FORTIFY_SOURCE', '-DSCRATCH="%s"' % d]
    san = drv.get('san', ['-fsanitize=address', '-fno-omit-frame-pointer'])
    objs = []
    srcs = [os.path.join(REPO, 'src', x) for x in drv.get('sources', ['bigfile.c', 'bigfile-record.c'])]
    cc = 'gcc'
    if mpi:
        inc += ['-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
        srcs += [os.path.join(REPO, 'src', x) for x in ('bigfile-mpi.c', 'mp-mpiu.c')]
    procs = []
    for s in srcs + [src]:
        o = os.path.join(d, os.path.basename(s) + '.o')
        extra = drv.get('defs', [])
        procs.append((s, subprocess.Popen([cc] + cfl + san + inc + extra + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        objs.append(o)
    ok = True
    for s, p in procs:
        o, _ = p.communicate()
        if p.returncode != 0:
            ok = False
            log.append('cannot compile %s:\n%s' % (s, o[-3000:]))
    if not ok:
        return None
    wraps = ['-Wl,--wrap=' + w for w in drv.get('wraps', [])]
    libs = ['-L/usr/lib/x86_64-linux-gnu/openmpi/lib', '-lmpi'] if mpi else []
    p = subprocess.run([cc] + san + objs + wraps + ['-o', exe, '-lm', '-lpthread'] + libs, capture_output=True, text=True)
    if p.returncode != 0:
        log.append('cannot link driver:\n' + (p.stdout + p.stderr)[-3000:])
        return None
    return exe

def run_driver(pid, drv, seed, seconds, log):
    """returns dict(status: clean|fail|unavailable, ...)"""
    d = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    res = dict(status='unavailable', evals=0, distinct=0, samples=[], known=[], out='')
    try:
        exe = build_driver(d, drv, log)
        if exe is None:
            return res
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'detect_leaks=%d:exitcode=77:allocator_may_return_null=1:color=never' % (1 if drv.get('leaks') else 0)
        env['DRV_SCRATCH'] = os.path.join(d, 's')
        os.mkdir(os.path.join(d, 's'))
        runs = drv.get('runs', [[]])
        res['status'] = 'clean'
        per = max(3, seconds / len(runs))
        for extra in runs:
            if drv.get('mpi'):
                np = extra[0]
                env['OMPI_ALLOW_RUN_AS_ROOT'] = '1'; env['OMPI_ALLOW_RUN_AS_ROOT_CONFIRM'] = '1'
                env['OMPI_MCA_rmaps_base_oversubscribe'] = '1'
                env['OMPI_MCA_btl'] = 'self,vader,tcp'
                env['TMPDIR'] = d
                sh = '. /opt/vp/env.sh >/dev/null 2>&1; exec mpirun --oversubscribe -n %d %s %s %s %s' % (np, exe, seed, int(per), ' '.join(map(str, extra[1:])))
                cmd = ['bash', '-c', sh]
            else:
                cmd = [exe, str(seed), str(int(per))] + [str(x) for x in extra]
            timeout = per * 4 + 60
            p = subprocess.Popen(cmd, cwd=os.path.join(d, 's'), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                out, _ = p.communicate(timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                out, _ = p.communicate()
                rc = 'timeout'
            out = out.decode('utf-8', 'replace')
            fails = []
            ended = False
            for l in out.splitlines():
                if l.startswith('EVALS '):
                    f = l.split(); res['evals'] += int(f[1]); res['distinct'] += int(f[2]); ended = True
                elif l.startswith('SAMPLE ') and len(res['samples']) < 12:
                    res['samples'].append(l[7:])
                elif l.startswith('KNOWN '):
                    res['known'].append(l[6:].strip())
                elif l.startswith('FAIL '):
                    fails.append(l[5:])
                elif l.startswith('SKIP'):
                    log.append(l); ended = True
            if fails or rc != 0:
                if not fails and not ended and 'SETUP-FAILED' in out:
                    res['status'] = 'unavailable'
                    log.append('driver could not run: ' + out[-1500:])
                    continue
                if not fails and drv.get('mpi') and 'CASE ' not in out and 'ERROR: AddressSanitizer' not in out:
                    # mpirun itself did not get going
                    res['status'] = 'unavailable'
                    log.append('mpirun failed: rc=%s %s' % (rc, out[-1500:]))
                    continue
                res['status'] = 'fail'
                res['fails'] = fails or ['the library crashed or hung (exit %s)' % rc]
                res['cmd'] = ' '.join(map(str, cmd))
                res['out'] = out[-12000:]
                res['args'] = [seed, int(per)] + list(extra)
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res

class DriverRun:
    """run_driver in a process of its own, next to the proofs"""
    def __init__(self, *a):
        self.r, w = mp.Pipe(False)
        self.res = {}
        self.log = []
        def go():
            lg = []
            try:
                x = run_driver(*a, lg)
            except Exception:
                lg.append('driver: ' + traceback.format_exc())
                x = dict(status='unavailable', evals=0, distinct=0, samples=[], known=[], out='')
            w.send((x, lg))
        self.p = mp.Process(target=go)
        self.p.start()
        w.close()
    def poll(self):
        if not self.res and self.r.poll(0):
            self.take()
        return self.res
    def take(self):
        try:
            self.res, self.log = self.r.recv()
        except EOFError:
            self.res = dict(status='unavailable', evals=0, distinct=0, samples=[], known=[], out='')
        self.p.join()
    def wait(self):
        if not self.res:
            self.take()
        return self.res

def known_findings(pid):
    p = os.path.join(HERE, 'known-findings.txt')
    out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                f = l.split(' ', 3)
                key = f[2].split('=', 1)[1]
                out[key] = f[3] if len(f) > 3 else ''
    return out

def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from .registry import PROPS, TRUSTED
    prop = PROPS[pid]
    known = known_findings(pid)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    log = []
    results = []
    front = None
    jobs = []
    from . import world
    try:
        mods = set()
        for modname, cls in prop['proofs']:
            m = importlib.import_module('vc.' + modname)
            c = getattr(m, cls)()
            mods.add(tuple(c.mods))
        for k in mods:
            world.program(k)
        world.layout()
        if any('mpiu' in k for k in mods):
            world.layout(True)
        for modname, cls in prop['proofs']:
            m = importlib.import_module('vc.' + modname)
            c = getattr(m, cls)()
            cs = list(c.cases())
            for i in range(0, len(cs), c.batch):
                jobs.append((modname, cls, cs[i:i + c.batch]))
    except Exception as e:
        front = 'front end: %s: %s' % (type(e).__name__, e)
        log.append(front + '\n' + traceback.format_exc())
    limit = prop.get('limit', 300)
    drv = prop.get('driver')
    dbox = {}
    drun = DriverRun(pid, drv, seed, drv.get('secs', 12) if tier == 'quick' else drv.get('thorough_secs', 150)) if drv else None
    if front is None:
        results = run_jobs(jobs, limit, prop.get('total', 420), nproc=7 if drv else 8,
                           hurry=lambda: drun is not None and drun.poll().get('status') == 'fail')
    if drun:
        dbox['res'] = drun.wait()
        log += drun.log
    failed = []
    outside = []
    nobl = ndis = 0
    kinds = collections.Counter()
    for r in results:
        nm = '%s [%s]' % (r.get('function') or r['contract'], r['case'])
        if r['error']:
            outside.append('%s: %s' % (nm, r['error']))
            log.append('%s: %s\n%s' % (nm, r['error'], r.get('tb', '')))
        for o in r['obls']:
            # obligations proved before the engine gave up are still proved
            nobl += 1
            kinds[o['kind']] += 1
            if o['status'] == 'ok':
                ndis += 1
            else:
                key = 'proof:%s:%s:%s:%s' % (r['contract'], r['case'], o['kind'], o['name'])
                if key.replace(' ', '_') in known:
                    continue
                failed.append((nm, o))
    dres = dict(status='none', evals=0, distinct=0, samples=[], known=[])
    if drv:
        dres = dbox['res']
        if failed and dres['status'] == 'clean':
            # look again for a failing input, longer and with the countermodels' numbers
            nums = []
            for nm, o in failed:
                for x in re.findall(r": (-?\d+)", o['model'] or ''):
                    if x not in nums and len(x) < 16 and len(nums) < 300:
                        nums.append(x)
            if nums:
                os.environ['DRV_DICT'] = ','.join(nums)
            again = run_driver(pid, drv, seed + 1000, max(drv.get('secs', 12) * 3, 40), log)
            if again['status'] == 'fail':
                dres = again
    wall = time.time() - t0
    nviol = 0
    # --- verdict
    vio = None
    knownhit = []
    for k in dres['known']:
        k0 = k.split(' ')[0]
        if k0 in known:
            if k0 not in knownhit:
                knownhit.append(k0)
        else:
            dres['status'] = 'fail'
            dres.setdefault('fails', []).append('key=' + k)
            dres.setdefault('cmd', '')
    for k in known:
        if k.startswith('proof:') and k not in knownhit:
            for r in results:
                for o in r['obls']:
                    key = ('proof:%s:%s:%s:%s' % (r['contract'], r['case'], o['kind'], o['name'])).replace(' ', '_')
                    if key == k and o['status'] != 'ok' and k not in knownhit:
                        knownhit.append(k)
    def describe(o):
        nm, ob = o
        return '%s: obligation "%s" (%s) fails in %s line %s\n   goal: %s\n   countermodel: %s' % (nm, ob['name'], ob['kind'], ob['func'], ob['line'], ob['goal'], ob['model'])
    rpath = os.path.join(rdir, pid + '.txt')
    if os.path.exists(rpath):
        os.remove(rpath)
    if dres['status'] == 'fail':
        nviol = len(dres['fails'])
        with open(rpath, 'w') as f:
            f.write('property %s: failing input found by running the real code\n' % pid)
            f.write('driver: drivers/%s, arguments: %s\nreplay: VERIF_SEED=%s python3 /verif/check.py %s\n\n' % (drv['src'], dres.get('args'), seed, pid))
            for x in dres['fails'][:20]:
                f.write('FAIL %s\n' % x)
            if failed:
                f.write('\nfailed obligations:\n' + '\n'.join(describe(o) for o in failed[:40]) + '\n')
            f.write('\n--- output\n' + dres.get('out', ''))
        vio = 'VIOLATION property=%s replay=%s' % (pid, rpath)
    elif failed:
        nviol = len(failed)
        with open(rpath, 'w') as f:
            f.write('property %s: obligations the verifier does not accept; no failing input found\n\n' % pid)
            f.write('\n'.join(describe(o) for o in failed[:60]) + '\n')
        vio = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rpath)
    # --- evidence
    fns = collections.OrderedDict()
    for r in results:
        f = fns.setdefault(r.get('function') or r['contract'], dict(cases=0, obligations=0, discharged=0, solver_s=0.0, wall_s=0.0, paths=0))
        f['cases'] += 1
        f['obligations'] += len(r['obls'])
        f['discharged'] += sum(1 for o in r['obls'] if o['status'] == 'ok')
        f['solver_s'] = round(f['solver_s'] + r.get('stats', {}).get('time', 0), 2)
        f['wall_s'] = round(f['wall_s'] + r['secs'], 2)
        f['paths'] += r.get('paths', 0) or 0
    used = sorted(set(x for r in results for x in r.get('contracts_used', [])))
    models = sorted(set(x for r in results for x in r.get('models_used', [])))
    inl = sorted(set(x for r in results for x in r.get('inlined', [])))
    ass = list(prop.get('assumptions', []))
    proved_here = set(f for f in fns)
    for u in used:
        if u not in proved_here:
            ass.append('contract of %s is used at call sites; its body is checked under %s' % (u, prop.get('where', {}).get(u, 'another property (see DESIGN.md)')))
    if models:
        ass.append('assumed contracts of external functions: ' + ', '.join(models))
    level = prop['level']
    cov = dict(obligations=nobl, discharged=ndis, checker_cmd='python3 /verif/check.py ' + pid, trusted_base=TRUSTED,
               functions=fns, obligation_kinds=dict(kinds), inlined_functions=inl, outside_reach=outside,
               back_ends={'z3': 'python bindings', 'linear_queries': sum(r.get('stats', {}).get('lin', 0) for r in results),
                          'nonlinear_queries': sum(r.get('stats', {}).get('nia', 0) for r in results),
                          'by_normalisation': sum(r.get('stats', {}).get('quick', 0) for r in results),
                          'solver_s': round(sum(r.get('stats', {}).get('time', 0) for r in results), 2)},
               loops=sorted(set(map(lambda l: '%s:%s' % (l[0], l[1]), sum([r.get('loops', []) or [] for r in results], [])))))
    if drv:
        cov['bounded_stand_in'] = dict(driver='drivers/' + drv['src'], status=dres['status'], what=drv.get('what', ''), note='bounded; not counted as proved')
        cov['evaluations'] = dres['evals']
        cov['distinct_nontrivial'] = dres['distinct']
        cov['rule'] = drv.get('rule', 'random cases from VERIF_SEED; distinct by case parameters; non-trivial when at least one row, element or item is involved')
        cov['samples'] = dres['samples'] or ['(none)']
    if level == 'other':
        cov['explanation'] = prop.get('explanation', '')
    if outside or front:
        cov['reduced'] = 'part of the code left the verifier\'s reach on this tree; for it only the bounded driver decides'
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=ass, wall_s=round(time.time() - t0, 2), violations=nviol if vio else 0)
    tmp = os.path.join(HERE, 'evidence', pid + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(HERE, 'evidence', pid + '.json'))
    for k in knownhit:
        print('KNOWN-FINDING: property=%s %s %s' % (pid, k, known[k]))
    print('%s: %d/%d obligations discharged (%d jobs), driver %s (%d evaluations), %.1f s' % (pid, ndis, nobl, len(jobs), dres['status'], dres['evals'], time.time() - t0))
    for l in log:
        print('note:', l)
    if vio:
        for o in failed[:8]:
            print(describe(o))
        for x in dres.get('fails', [])[:8]:
            print('FAIL', x)
        print(vio)
        return 1
    return 0
