"""Contracts: one specification per function, used both ways.

apply(): at a call site the caller is charged with the precondition and continues from the
postcondition (the callee's body is not looked at).
verify(): the body is executed symbolically over all paths from an arbitrary state satisfying the
precondition, and every return is compared with the same specification, including the frame.
"""
import time
from .term import *
from .exec import *
from .exec import _keep
from .loops import Region, RegionE, Blob

class Effect:
    def __init__(self, ret=None, anyret=False):
        self.ret = ret
        self.anyret = anyret
        self.cells = []      # (ptr, size, value, name)
        self.regions = []    # (ptr, len, reader, gran, name)
        self.ghosts = {}
        self.exists = []     # (atom poly, witness(S, ret))
        self.post = []       # (name, formula)
        self.allow = []      # (ptr, len): may change arbitrarily
        self.after = None    # call-site only hook(S)
        self.check = None    # extra obligations: check(S0, S, ret) -> [(name, formula)]
        self.leak_ok = False
        self.frees = []
        self.dead_ok = ()    # may be freed (what is kept is checked by other means)
        self.elems = []      # elems.Elems
        self.alts = None     # [(name, cond(ret) -> formula, Effect)]: the return value tells which applies
    def cell(self, ptr, size, val, name):
        self.cells.append((P(ptr), size, P(val), name))
        return self
    def region(self, ptr, ln, reader, gran, name):
        self.regions.append((P(ptr), P(ln), reader, gran, name))
        return self

class Contract:
    recursive = False
    name = None
    bounded_only = False
    batch = 1            # cases proved by one process
    def __init__(self, name=None):
        if name:
            self.name = name
    # to be overridden
    def cases(self):
        return ['']
    def setup(self, ex, S, case):
        """build an arbitrary pre-state; returns the argument list"""
        raise NotImplementedError
    def spec(self, S, args):
        raise NotImplementedError
    def hints(self, ex, case):
        pass
    mods = ('bigfile',)
    def uses(self):
        """contracts assumed at call sites"""
        return {}
    def models(self):
        """additional assumed contracts of functions without a body under contract"""
        return {}
    # ---- use at call sites
    def apply(self, ex, S, args):
        eff = self.spec(S, args)
        return self.perform(S, eff)
    def perform(self, S, eff):
        if eff.alts is not None:
            for n, (nm, cond, e) in enumerate(eff.alts):
                if n == len(eff.alts) - 1 or S.nondet(nm):
                    return self.perform(S, e)
        for n, f in eff.post:
            S.assume(f)
        for ptr, ln in eff.allow:
            o, off = S.resolve(ptr)
            S.ex.note_write(S, o, off, ln)
            S.push(o, ('H', off, P(ln), Blob(o.name)))
        for ptr, ln, reader, gran, name in eff.regions:
            o, off = S.resolve(ptr)
            S.ex.note_write(S, o, off, ln)
            S.push(o, ('H', off, ln, reader))
        for el in eff.elems:
            el.push(S)
        for ptr, size, val, name in eff.cells:
            o, off = S.resolve(ptr)
            S.ex.note_write(S, o, off, C(size))
            S.push(o, ('W', off, C(size), val))
        for k, v in eff.ghosts.items():
            S.ghost[k] = v
        for o in eff.frees:
            S.free(o)
        if eff.after:
            eff.after(S)
        return eff.ret
    # ---- proof of the body
    def verify(self, ex, case):
        ex.target = self.name
        SUMS.clear(); POWS.clear(); XORS.clear()
        f = ex.prog.find(self.name)
        S = State(ex)
        fr = Frame(f)
        S.frames.append(fr)
        ex.case = case
        S.ghost['fault'] = ZERO
        args = self.setup(ex, S, case)
        if len(args) != len(f.params):
            raise Unsupported('%s has %d parameters' % (self.name, len(f.params)))
        for (ty, pn, bv), v in zip(f.params, args):
            fr.env[pn] = v
        self.hints(ex, case)
        # precondition: requirements of the specification are assumed
        saved = ex.collect
        ex.collect = False
        S.frames[-1] = Frame(f); S.frames[-1].env = fr.env
        branches = ex.explore(S.copy(), lambda s: self.spec(s, args))
        ex.collect = saved
        if not branches:
            ex.record('vacuity', 'precondition of %s is satisfiable' % self.name, S, 'fail')
        npaths = 0
        for Sb, eff in branches:
            if not ex.solver.feasible(Sb.pcs, TRUE):
                ex.record('vacuity', 'specification case is reachable', Sb, 'fail')
                continue
            base = Sb.copy()
            ctx = Ctx(1, top=True)
            run = Sb.copy()
            # the specification's own choices must not collide with the body's
            run.nd = Sb.nd + 1000
            ex.frame_base = (base, eff, self.allowed(base, eff))
            ex.frame_old = set(base.mem)
            ex.run_from(run, ctx)
            ex.frame_base = None
            npaths += len(ctx.rets)
            if not ctx.rets:
                ex.record('vacuity', 'a return is reachable in every specification case', Sb, 'fail' if not ex.bounded else 'ok')
            for R in ctx.rets:
                self.compare(ex, base, R, eff, args)
        return npaths
    def allowed(self, base, eff):
        out = {}
        for nm, cond, e in eff.alts or ():
            for k, l in self.allowed(base, e).items():
                out.setdefault(k, []).extend(l)
        for el in eff.elems:
            out.setdefault(el.oid(base), []).append((el, None))
        for ptr, ln in eff.allow:
            o, off = base.resolve(ptr)
            out.setdefault(o.id, []).append((off, P(ln)))
        for ptr, ln, reader, gran, name in eff.regions:
            o, off = base.resolve(ptr)
            out.setdefault(o.id, []).append((off, ln))
        for ptr, size, val, name in eff.cells:
            o, off = base.resolve(ptr)
            out.setdefault(o.id, []).append((off, C(size)))
        # adjacent pieces form one range
        for k, l in out.items():
            groups = {}
            for off, ln in l:
                if ln is not None and ln.is_const():
                    c = off.t.get((), 0)
                    groups.setdefault(off - c, []).append((c, c + ln.cval()))
            for b, iv in groups.items():
                iv.sort()
                lo, hi = iv[0]
                for x, y in iv[1:] + [(None, None)]:
                    if x is not None and x <= hi:
                        hi = max(hi, y)
                    else:
                        l.append((b + lo, C(hi - lo)))
                        lo, hi = x, y
            l.reverse()
        return out
    def compare(self, ex, base, R, eff, args):
        if eff.alts is not None:
            r = R.ret
            if isinstance(r, F):
                r = BoolInt(r)
            conds = [cond(r) for nm, cond, e in eff.alts]
            try:
                ex.obligation(R.copy(), 'ensures', 'the outcome is one of those specified', or_(*conds))
            except PathEnd:
                return
            for c, (nm, cond, e) in zip(conds, eff.alts):
                if R.may(c):
                    s = R.copy()
                    s.assume(c)
                    self.compare(ex, base, s, e, args)
            return
        mp = {}
        for a, wit in eff.exists:
            res = ex.explore(R.copy(), lambda S: wit(S, R.ret))
            if len(res) != 1:
                for s, v in res:
                    self.compare1(ex, base, s, eff, {**mp, atom_id(a): v} if len(eff.exists) == 1 else None)
                return
            mp[atom_id(a)] = res[0][1]
        self.compare1(ex, base, R, eff, mp)
    def compare1(self, ex, base, R, eff, mp):
        if mp is None:
            raise Unsupported('witness')
        def ob(name, fn, kind='ensures'):
            for s, f in ex.explore(R.copy(), fn):
                try:
                    ex.obligation(s, kind, name, f)
                except PathEnd:
                    pass
        if not eff.anyret and eff.ret is not None:
            r = R.ret
            if isinstance(r, F):
                r = BoolInt(r)
            ob('return value', lambda S: eq(r, subst(eff.ret, mp)))
        for n, f in eff.post:
            g = subst_f(f, mp)
            ob(n, lambda S, g=g: g)
        for ptr, size, val, name in eff.cells:
            ob(name, lambda S: eq(S.rd(ptr, size), subst(val, mp)))
        for ptr, ln, reader, gran, name in eff.regions:
            def q(S):
                x = S.fresh('x', 0, 1 << 62)
                S.assume(lt(x * gran, subst(ln, mp)))
                o, off = S.resolve(ptr)
                off = off + x * gran
                want = reader(S, off, gran)
                return eq(S.read(o, off, gran), subst(want, mp))
            ob(name, q)
        for el in eff.elems:
            ob(el.name, el.check(R, mp))
        for k, v in eff.ghosts.items():
            got = R.ghost.get(k)
            if isinstance(v, Poly) and isinstance(got, Poly):
                ob(str(k), lambda S: eq(got, subst(v, mp)))
            else:
                ob(str(k), lambda S: TRUE if got == v else FALSE)
        for k, v in R.ghost.items():
            if k not in eff.ghosts and k in base.ghost and not ghost_free(k):
                b = base.ghost[k]
                if isinstance(v, Poly) and isinstance(b, Poly):
                    if v != b:
                        ob('unchanged %s' % (k,), lambda S, v=v, b=b: eq(v, b), 'frame')
                elif v != b:
                    ob('unchanged %s' % (k,), lambda S: FALSE, 'frame')
        if eff.check:
            for n, fn in eff.check(base, R, mp):
                ob(n, fn)
        # deallocation frame and leaks
        freed = set(o.id for o in eff.frees)
        for oid, os in base.mem.items():
            if os.alive and not R.mem[oid].alive and oid not in freed and oid not in eff.dead_ok:
                self.bad(ex, R, 'frame', 'object %s is not freed' % base.objs[oid].name)
            if oid in freed and R.mem[oid].alive:
                self.bad(ex, R, 'frame', 'object %s is freed' % base.objs[oid].name)
        if not eff.leak_ok:
            for oid, os in R.mem.items():
                if oid not in base.mem and os.alive and R.objs[oid].kind in ('heap', 'file'):
                    self.bad(ex, R, 'leak', '%s acquired by the function is released' % ('file handle' if R.objs[oid].kind == 'file' else 'heap object'))
    def bad(self, ex, R, kind, name):
        try:
            ex.obligation(R.copy(), kind, name, FALSE)
        except PathEnd:
            pass

GHOST_FREE = {'fault'}     # set when a resource or storage operation is refused; constrained only where a contract says so
def ghost_free(k):
    return (k[0] if isinstance(k, tuple) else k) in GHOST_FREE

def atom_id(p):
    (m, c), = p.t.items()
    return m[0]

def note_write(ex, S, o, off, ln):
    """frame condition of the function under verification, checked at every write"""
    fb = ex.frame_base
    if fb is None:
        return
    base, eff, allowed = fb
    if o.id not in base.mem or o.kind == 'stack' and o.id not in base.mem:
        return
    al = allowed.get(o.id, ())
    ln = P(ln)
    fs = []
    for aoff, aln in al:
        if aln is None:
            fs.append(aoff.covers(base, off, ln))
            if fs[-1] is TRUE:
                return
            continue
        f = and_(ge(off, aoff), le(off + ln, aoff + aln))
        if f is TRUE:
            return
        fs.append(f)
    if o.info.get('frame_free'):
        return
    f = or_(or_(*fs), eq(ln, 0))
    ex.obligation(S, 'frame', 'writes to %s stay in the frame' % o.name, f)
Exec.note_write = note_write

def note_elems(ex, S, el):
    """frame condition for a run of elements written by a callee"""
    fb = ex.frame_base
    if fb is None:
        return
    base, eff, allowed = fb
    o, boff = S.resolve(el.data)
    if o.id not in base.mem or o.info.get('frame_free'):
        return
    if el.arr.packed:
        return note_write(ex, S, o, boff + el.arr.off(el.k0), el.arr.off(el.n))
    fs = [eq(el.n, 0)]
    for aoff, aln in allowed.get(o.id, ()):
        if aln is None and aoff.arr.fn == el.arr.fn and aoff.data == el.data:
            fs.append(and_(ge(el.k0, aoff.k0), le(el.k0 + el.n, aoff.k0 + aoff.n)))
    ex.obligation(S, 'frame', 'writes to %s stay in the frame' % o.name, or_(*fs))
Exec.note_elems = note_elems
