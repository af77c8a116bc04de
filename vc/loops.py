"""Loops: complete unrolling when every iteration's governing test is decided, otherwise a cut by
inductive invariants.

The invariants are found, not assumed: closed forms in an iteration counter n (and prefix sums),
per-iteration write templates for memory, Houdini-pruned scalar candidates, and, where a contract
supplies one, an abstract loop specification in terms of a progress variable.  Whatever is found is
then *proved*: on entry, and at every back edge of a fresh symbolic execution of the body; the final
run records these as obligations of kind 'invariant' and 'termination'.
"""
from .term import *
from .exec import (NeedInv, Unsupported, PathEnd, Fork, Ctx, Budget, read_log, _seq, _keep, OS, BoolPoly, wrapped)
import itertools

def isptr_(p):
    return isinstance(p, Poly) and any(ATOMS[i].kind == 'base' for i in p.atoms())

class Split(Exception):
    def __init__(self, cond):
        self.cond = cond

NMAX = 1 << 62
_lid = itertools.count()

def do_loop(ex, S0, header, ctx):
    out = []
    work = [(S0, 0)]
    while work:
        S, ns = work.pop()
        snap = S.copy()
        r = None if ex.no_unroll or S.fr.func.name in ex.cut_loops else unroll(ex, S.copy(), header)
        if r is None:
            try:
                r = Loop(ex, snap, header, ns < 3).solve()
            except Split as sp:
                for x in ex.split(snap, sp.cond):
                    work.append((x, ns + 1))
                continue
        for e in r:
            out.extend(ex.arrive(e, e.fr.block, e.fr.prev, ctx))
    return out

def latches_of(f, header):
    body = f.loops[header]
    return [b for b in body if header in f.blocks[b].succ]

def unroll(ex, S, header):
    depth = len(S.frames)
    f = S.fr.func
    loop = f.loops[header]
    lat = latches_of(f, header)
    mark = len(ex.obls)
    exits = []
    cur = [S]
    bounded = ex.bounded
    limit = bounded if bounded else ex.max_unroll
    for it in range(limit + 1):
        c = Ctx(depth, loop, header, latches=lat)
        c.strict = not bounded
        try:
            for st in cur:
                ex.run_from(st, c)
        except NeedInv:
            del ex.obls[mark:]
            return None
        exits += c.exits
        cur = c.backs
        if not cur:
            return exits
        if len(cur) > 200 and not bounded:
            break
    if bounded:
        ex.bounded_hit = True
        return exits
    del ex.obls[mark:]
    return None

def is_fresh_after(a, nd):
    return a.kind == 'fresh' and a.data is not None and a.data > nd

def strip_wrap(p):
    return Poly({m: c for m, c in p.t.items()
                 if not any(ATOMS[i].kind == 'app' and ATOMS[i].data[0] == 'wq' for i in m)})

def wrap_width(p):
    for m in p.t:
        for i in m:
            a = ATOMS[i]
            if a.kind == 'app' and a.data[0] == 'wq':
                return P(a.data[1][0]).cval()
    return None

class Tmpl:
    """one write of the loop body, as a function of the iteration number"""
    __slots__ = ('kind', 'off', 'ln', 'payload', 'marker')
    def __init__(self, kind, off, ln, payload):
        self.kind = kind; self.off = off; self.ln = ln; self.payload = payload; self.marker = None
    def subst(self, mp):
        k = self.kind
        if k == 'W':
            pl = subst_val(self.payload, mp)
        elif k == 'F':
            pl = subst(self.payload, mp)
        elif k == 'C':
            so, sl, sf = self.payload
            pl = (so, sl, subst(sf, mp))
        else:
            pl = self.payload
        return (k, subst(self.off, mp), subst(self.ln, mp), pl)

def subst_val(v, mp):
    if isinstance(v, BoolPoly):
        return BOOLINT[0](subst_f(v.f, mp))
    return subst(v, mp)

class Region:
    """writes of iterations 0..count-1 of a loop into one object"""
    def __init__(self, obj, n, count, tmpls, base, A, b):
        self.obj = obj
        self.n = n            # atom of the iteration number used in the templates
        self.count = count
        self.tmpls = tmpls
        self.base = base      # log before the loop
        self.A = A            # stride (Poly) or ('fn', name, offset)
        self.b = b            # lowest offset at iteration 0
        self.marked = False
        self.w = None
        self.seen = False
    def index(self, S, off):
        """iteration that could have written off (polynomial) or None"""
        if isinstance(self.A, tuple):
            fn, c, extra = self.A[1], self.b, self.A[2]
            d = off - c
            for m, cf in d.t.items():
                if len(m) == 1 and cf == 1:
                    a = ATOMS[m[0]]
                    if a.kind == 'app' and a.data[0] == fn and tuple(a.data[1][1:]) == extra:
                        r = d - Poly.atom(a)
                        if r.is_const():
                            return P(a.data[1][0]), r
            return None, None
        A = self.A
        neg = A.is_const() and A.cval() < 0
        if neg:
            k = fdivp(self.b + (-A) - 1 - off, -A)
        else:
            k = fdivp(off - self.b, A)
        return k, None
    def read(self, S, o, off, size):
        """value or None when off is not covered by the region"""
        k, r = self.index(S, off)
        if k is None:
            raise Unsupported('read of loop-written memory at %r' % (off,))
        if not (S.decide(ge(k, 0)) and S.decide(lt(k, self.count))):
            return None
        if self.marked:
            log = self.base
            for j, t in enumerate(self.tmpls):
                e = t.subst({self.n.id: k})
                if e[0] == 'W':
                    sz = e[2].cval()
                    e = ('W', e[1], e[2], app('mark%d_%d' % (id(self), j), k, lo=-(1 << (8 * sz - 1)), hi=(1 << (8 * sz - 1)) - 1))
                log = e + (log, 0)
        else:
            log = self.base
            for t in self.tmpls:
                log = t.subst({self.n.id: k}) + (log, 0)
        return read_log(S, o, log, off, size)
    def subst(self, mp):
        r = Region(self.obj, self.n, subst(self.count, mp), self.tmpls, self.base, self.A, subst(self.b, mp))
        if isinstance(self.A, Poly):
            r.A = subst(self.A, mp)
        if any(i in mp for t in self.tmpls for i in tmpl_atoms(t)):
            mp2 = {k: v for k, v in mp.items() if k != self.n.id}
            nt = []
            for t in self.tmpls:
                nt.append(Tmpl(*t.subst(mp2)))
            r.tmpls = nt
        return r

def tmpl_atoms(t):
    s = set()
    deep_atoms(t.off, s)
    if t.kind in ('W', 'F'):
        deep_atoms(t.payload, s)
    elif t.kind == 'C':
        deep_atoms(t.payload[2], s)
    return s

class Blob:
    """unknown content left by the loop"""
    def __init__(self, name):
        self.name = name
        self.k = next(_lid)
    def __call__(self, S, off, size):
        return app('blob_%s_%d' % (self.name, self.k), off, C(size), lo=-(1 << (8 * size - 1)), hi=(1 << (8 * size - 1)) - 1)

class Loop:
    def __init__(self, ex, S0, header, may_split=True):
        self.ex = ex
        self.S0 = S0
        self.header = header
        self.f = S0.fr.func
        self.depth = len(S0.frames)
        self.body = self.f.loops[header]
        self.may_split = may_split
        self.id = next(_lid)
        self.line = S0.line
        self.n = new_atom('n@%s.%d' % (header.strip('%'), self.id), 0, NMAX, 'iter')
        self.pn = Poly.atom(self.n)
        self.items = {}      # item -> atom
        self.init = {}
        self.form = {}       # item -> Poly or None
        self.nofrm = set()
        self.blobs = {}      # (objid, off) -> (len, Blob)
        self.regions = {}    # objid -> Region
        self.havoc = {}      # objid -> Blob (whole object content unknown)
        self.cands = []
        self.seen_c = set()
        self.hint = None
        self.guess = set()
        for ph in self.f.blocks[header].phis:
            self.add(('phi', ph.res), ph.ty, S0.fr.env[ph.res])
    # ---- items
    def add(self, item, ty, init):
        if item in self.items:
            return
        lo = hi = None
        if isinstance(ty, tuple) and ty[0] == 'i':
            lo, hi = -(1 << (ty[1] - 1)), (1 << (ty[1] - 1)) - 1
        elif isinstance(ty, int):
            lo, hi = -(1 << (8 * ty - 1)), (1 << (8 * ty - 1)) - 1
        if not isinstance(init, Poly):
            # an i1 or floating phi
            self.items[item] = None
            self.init[item] = init
            self.form[item] = None
            return
        a = new_atom('%s@%d' % (str(item[-1]).strip('%') if item[0] == 'phi' else '%s[%s]' % (self.S0.objs[item[1]].name if item[0] == 'cell' else 'g', item[2] if item[0] == 'cell' else item[1]), self.id), lo, hi, 'item', item)
        self.items[item] = a
        self.init[item] = init
        self.form[item] = None
        if isptr_(init) and not isinstance(ty, int):
            # the address of the first iteration serves to guess how it moves
            self.guess.add(item)
    def get(self, S, item):
        k = item[0]
        if k == 'phi':
            return S.frames[self.depth - 1].env[item[1]]
        if k == 'cell':
            o = S.objs[item[1]]
            return read_log(S, o, S.mem[o.id].log, item[2], item[3])
        return S.ghost[item[1]]
    def put(self, S, item, v):
        k = item[0]
        if k == 'phi':
            S.frames[self.depth - 1].env[item[1]] = v
        elif k == 'cell':
            S.push(S.objs[item[1]], ('W', item[2], C(item[3]), v))
        else:
            S.ghost[item[1]] = v
    def variant(self, p):
        """does p depend on the iteration?"""
        for i in deep_atoms(p):
            a = ATOMS[i]
            if a is self.n or (a.kind == 'item' and a in self.iset()) or is_fresh_after(a, self.S0.nd):
                return True
            if a.kind == 'iter' and a.data != 'outer' and a is not self.n and a.id > self.n.id:
                return True
            if a.kind == 'base' and a.data.id not in self.S0.mem:
                return True
            if self.hint is not None and a is self.hint.w:
                return True
        return False
    def iset(self):
        return set(a for a in self.items.values() if a is not None)
    def only_n(self, p):
        """depends on the iteration only through n?"""
        for i in deep_atoms(p):
            a = ATOMS[i]
            if a is self.n:
                continue
            if (a.kind == 'item' and a in self.iset()) or is_fresh_after(a, self.S0.nd):
                return False
            if a.kind == 'iter' and a is not self.n and a.id > self.n.id:
                return False
            if a.kind == 'base' and a.data.id not in self.S0.mem:
                return False
            if a.kind == 'app' and a.data[0].startswith('mark'):
                return False
            if self.hint is not None and a is self.hint.w:
                return False
        return True
    # ---- general state
    def build(self, mark):
        S = self.S0.copy()
        S.nd += 1
        for oid, b in self.havoc.items():
            o = S.objs[oid]
            S.push(o, ('H', ZERO, o.size if o.size is not None else C(1 << 62), b))
        for (oid, off), (ln, b) in self.blobs.items():
            S.push(S.objs[oid], ('H', off, ln, b))
        for oid, r in self.regions.items():
            r.marked = mark
            r.count = self.pn
            S.push(S.objs[oid], ('R', ZERO, ZERO, r))
        for it, a in self.items.items():
            if self.hint is not None and self.hint.covers(self, it):
                continue
            if a is None:
                if it[0] == 'phi':
                    v = self.init[it]
                    if isinstance(v, F):
                        S.nd += 1
                        self.put(S, it, eq(S.fresh('i1phi', 0, 1), 1))
                    continue
                raise Unsupported('loop item %r' % (it,))
            v = self.form[it]
            if v is None and it in self.guess:
                v = self.init[it]
            self.put(S, it, v if v is not None else Poly.atom(a))
        if self.hint is not None:
            self.hint.setup(self, S)
        for c in self.cands:
            S.assume(c)
        return S
    def run(self, Sg):
        c = Ctx(self.depth, self.body, self.header, latches=latches_of(self.f, self.header))
        st = Sg.copy()
        self.ex.run_from(st, c)
        return c
    def diff(self, Sg, B):
        """log entries added by the body, per object (oldest first)"""
        out = {}
        for oid, os in Sg.mem.items():
            nb = B.mem.get(oid)
            if nb is None:
                continue
            if nb.alive != os.alive:
                raise Unsupported('object %s freed in a loop' % Sg.objs[oid].name)
            l = nb.log
            es = []
            while l is not os.log:
                if l is None:
                    raise Unsupported('log')
                es.append(l)
                l = l[4]
            if es:
                es.reverse()
                out[oid] = es
        return out
    # ---- inference
    def use_hint(self, Sg, c, ent):
        for h in (self.ex.loop_hints or ()):
            hh = h(self, Sg, c, ent)
            if hh is not None:
                self.hint = hh
                for it in list(self.items):
                    if hh.covers(self, it):
                        del self.items[it]; del self.init[it]; del self.form[it]
                        self.guess.discard(it)
                self.ex.notes.append('loop specification %s used for the loop at line %d of %s' % (hh.name, self.line, self.f.name))
                return True
    def infer(self):
        ex = self.ex
        if self.f.name in ex.cut_loops:
            self.use_hint(None, None, None)
        for rnd in range(14):
            Sg = self.build(mark=True)
            c = self.run(Sg)
            if not c.backs:
                # the body never comes back: the first iteration is the only one
                self.hint = None
                self.Sg = self.S0.copy()
                return
            if self.step(Sg, c):
                continue
            # stable: verify closed forms, then prune candidates
            if self.houdini():
                return
        raise Unsupported('no invariant for the loop at line %d of %s' % (self.line, self.f.name))
    def step(self, Sg, c):
        """refine from the back edges; True when something changed"""
        ch = False
        ent = []
        for B in c.backs:
            d = self.diff(Sg, B)
            ent.append(d)
            for k, v in B.ghost.items():
                if k in Sg.ghost and v is not Sg.ghost[k] and v != Sg.ghost[k]:
                    if not isinstance(v, Poly) or not isinstance(Sg.ghost[k], Poly):
                        raise Unsupported('ghost %s in loop' % (k,))
                    it = ('ghost', k)
                    if it not in self.items:
                        self.add(it, None, self.S0.ghost[k])
                        ch = True
        # addresses first
        for d in ent:
            for oid, es in d.items():
                o = self.S0.objs.get(oid)
                if o is None or oid in self.havoc:
                    continue
                for kind, off, ln, payload, prev, seq in es:
                    it = ('cell', oid, off, ln.cval() if ln.is_const() else 0)
                    if kind == 'W' and ln == 8 and it not in self.items and not self.variant(off) and isinstance(payload, Poly) and isptr_(payload) \
                            and not (self.hint is not None and (self.hint.owns(oid) or self.hint.covers(self, it))):
                        ini = self.rd0(o, off, 8)
                        if ini is not None and isptr_(ini):
                            self.add(it, None, ini)
        if self.guess:
            for it in list(self.guess):
                self.guess.discard(it)
                vs = [self.get1(B, it) for B in c.backs]
                if vs[0] is not None and all(v == vs[0] for v in vs):
                    f = self.moves(self.init[it], vs[0])
                    if f is not None:
                        self.form[it] = f
                        continue
                self.nofrm.add(it)
            return True
        # contract loop specification
        if self.hint is None:
            if self.use_hint(Sg, c, ent):
                return True
        regs = {}
        for d in ent:
            for oid, es in d.items():
                if self.hint is not None and self.hint.owns(oid):
                    continue
                if oid in self.havoc:
                    continue
                o = self.S0.objs.get(oid) or Sg.objs[oid]
                for kind, off, ln, payload, prev, seq in es:
                    if kind == 'W':
                        if not self.variant(off):
                            if any(k[0] == oid and self.inside(off, ln, k[1], b[0]) for k, b in self.blobs.items()):
                                continue
                            it = ('cell', oid, off, ln.cval())
                            if it in self.items:
                                continue
                            if self.hint is not None and self.hint.covers(self, it):
                                continue
                            ini = self.rd0(o, off, ln.cval())
                            if ini is None:
                                ini = Poly.atom(new_atom('unk', None, None))
                            isptr = any(ATOMS[i].kind == 'base' for i in ini.atoms())
                            self.add(it, None if isptr else ln.cval(), ini)
                            ch = True
                        else:
                            regs.setdefault(oid, None)
                    elif kind == 'R':
                        self.havoc[oid] = Blob(o.name)
                        self.regions.pop(oid, None)
                        ch = True
                        break
                    elif not self.variant(off) and not self.variant(ln):
                        key = (oid, off)
                        if any(k[0] == oid and self.inside(off, ln, k[1], b[0]) for k, b in self.blobs.items()):
                            continue
                        if key not in self.blobs or self.blobs[key][0] != ln:
                            self.blobs[key] = (ln, Blob(o.name))
                            for it in list(self.items):
                                if it[0] == 'cell' and it[1] == oid and self.inside(it[2], C(it[3]), off, ln):
                                    del self.items[it]; del self.init[it]; del self.form[it]
                            ch = True
                    elif not self.variant(off):
                        # variable length from a fixed start: the content is unknown at the next iteration
                        self.havoc[oid] = Blob(o.name)
                        self.regions.pop(oid, None)
                        ch = True
                    else:
                        regs.setdefault(oid, None)
        if ch:
            return True
        # closed forms
        for it, a in self.items.items():
            if a is None or self.form[it] is not None or it in self.nofrm:
                continue
            if self.hint is not None and self.hint.covers(self, it):
                continue
            ds = []
            for B in c.backs:
                v = self.get1(B, it)
                if v is None or not isinstance(v, Poly):
                    ds = None
                    break
                ds.append(strip_wrap(v) - Poly.atom(a))
            if ds is None:
                self.nofrm.add(it)
                continue
            if all(x == ds[0] for x in ds) and not self.variant(ds[0]):
                self.form[it] = self.init[it] + ds[0] * self.pn
                ch = True
            elif self.hint is not None:
                ws = [self.hint.progress(self, B) - Poly.atom(self.hint.w) for B in c.backs]
                f = ratio(ds, ws)
                if f is not None and not self.variant(f):
                    self.form[it] = self.init[it] + f * Poly.atom(self.hint.w)
                    ch = True
        if ch:
            return True
        for it, a in self.items.items():
            if a is None or self.form[it] is not None or it in self.nofrm:
                continue
            if self.hint is not None and self.hint.covers(self, it):
                continue
            if self.ex.plain_forms:
                self.nofrm.add(it)
                continue
            ds = []
            for B in c.backs:
                v = self.get1(B, it)
                ds.append(strip_wrap(v) - Poly.atom(a))
            d = self.merge(Sg, c.backs, ds)
            if d is not None and self.only_n(d):
                body = subst(d, {self.n.id: Poly.atom(PLACE)})
                f = self.init[it] + sum_(body, self.pn)
                w = wrap_width(self.get1(c.backs[0], it))
                self.form[it] = wrapped(f, w) if w else f
                ch = True
                continue
            # value of the previous iteration
            vs = [self.get1(B, it) for B in c.backs]
            v = self.merge(Sg, c.backs, vs)
            if v is not None and self.only_n(v):
                v1 = subst(v, {self.n.id: self.pn - 1})
                if it[0] == 'phi' and any(ATOMS[i].kind == 'base' for i in v1.atoms() | self.init[it].atoms()):
                    self.nofrm.add(it)
                    continue
                self.form[it] = ite(eq(self.pn, 0), self.init[it], v1)
                ch = True
                continue
            self.nofrm.add(it)
        if ch:
            return True
        # cells that only looked fixed as long as the address was that of the first iteration
        for oid in regs:
            if oid in self.regions:
                continue
            fixed = set(e[1] for d in ent for e in d.get(oid, ()) if e[0] == 'W' and not self.variant(e[1]))
            for it in list(self.items):
                if it[0] == 'cell' and it[1] == oid and it[2] not in fixed:
                    del self.items[it]; del self.init[it]; del self.form[it]
                    ch = True
        if ch:
            return True
        # memory written at moving addresses
        for oid in regs:
            known = self.regions.get(oid)
            if known is not None and known.w == 'ok':
                # the body may read what earlier iterations wrote: does that change what it writes?
                if known.seen or not any(a.startswith('mark') for d in ent for e in d.get(oid, ()) if e[0] == 'W' and isinstance(e[3], Poly) for i in e[3].atoms() for a in [ATOMS[i].kind == 'app' and ATOMS[i].data[0] or '']):
                    continue
                r = self.region(Sg, c.backs, ent, oid)
                if r is not None:
                    r.seen = True
                    self.regions[oid] = r
                    return True
                continue
            r = self.region(Sg, c.backs, ent, oid)
            if r is None:
                self.regions.pop(oid, None)
                self.havoc[oid] = Blob(Sg.objs[oid].name)
            else:
                self.regions[oid] = r
            ch = True
        return ch
    def moves(self, init, v):
        """address of iteration n when one iteration takes init to v"""
        d = v - init
        ap = [ATOMS[i] for i in d.atoms() if ATOMS[i].kind == 'app' and ATOMS[i].data[0].startswith('eoff')]
        if ap:
            a0 = [a for a in ap if init.t.get((a.id,)) == 1]
            a1 = [a for a in ap if v.t.get((a.id,)) == 1]
            if len(a0) != 1 or len(a1) != 1 or a0[0].data[0] != a1[0].data[0] or v - Poly.atom(a1[0]) != init - Poly.atom(a0[0]):
                return None
            k0, k1 = P(a0[0].data[1][0]), P(a1[0].data[1][0])
            if self.variant(k1 - k0):
                return None
            mk = MAKERS[a0[0].data[0]]
            return init - Poly.atom(a0[0]) + mk(k0 + (k1 - k0) * self.pn)
        if self.variant(d) or isptr_(d):
            return None
        return init + d * self.pn
    def inside(self, off, ln, boff, bln):
        d = off - boff
        return d.is_const() and d.cval() >= 0 and (bln - ln - d).is_const() and (bln - ln - d).cval() >= 0
    def rd0(self, o, off, size):
        res = self.ex.explore(self.S0.copy(), lambda S: read_log(S, o, S.mem[o.id].log, off, size))
        if len(res) == 1:
            return res[0][1]
        return None
    def get1(self, B, it):
        res = self.ex.explore(B.copy(), lambda S: self.get(S, it))
        vs = [r for s, r in res]
        if vs and all(v == vs[0] for v in vs):
            return vs[0]
        return None
    def merge(self, Sg, backs, vals):
        """one expression for the value over all back paths"""
        if any(v is None for v in vals):
            return None
        if all(v == vals[0] for v in vals):
            return vals[0]
        base = len(Sg.pcs)
        pcs = [B.pcs[base:] for B in backs]
        return merge_rec(list(range(len(backs))), pcs, vals)
    def region(self, Sg, backs, ent, oid):
        """per-iteration write templates of one object, or None"""
        o = Sg.objs[oid]
        lists = []
        for d in ent:
            es = []
            for kind, off, ln, payload, prev, seq in d.get(oid, ()):
                if kind == 'W' and not self.variant(off):
                    continue
                if not self.only_n(off) or self.variant(ln):
                    return None
                if kind == 'C':
                    so, sl, sf = payload
                    if so.id not in Sg.mem or sl is not Sg.mem[so.id].log or not self.only_n(sf):
                        return None
                elif kind == 'F':
                    if not self.only_n(payload):
                        return None
                elif kind != 'W':
                    return None
                # later writes to the same place win
                es = [e for e in es if not (e.off == off and e.ln == ln)]
                es.append(Tmpl(kind, off, ln, payload))
            lists.append(es)
        offs = [t.off for es in lists for t in es]
        sig = []
        for es in lists:
            for t in es:
                if not any(x.off == t.off and x.ln == t.ln for x in sig):
                    sig.append(t)
        old = self.regions.get(oid)
        out = []
        for t in sig:
            vals = []
            for bi, es in enumerate(lists):
                m = [x for x in es if x.off == t.off and x.ln == t.ln]
                if m:
                    vals.append(m[0].payload)
                elif t.kind == 'W':
                    # not written on this path: keeps its value
                    res = self.ex.explore(Sg.copy(), lambda S: read_log(S, o, S.mem[oid].log, t.off, t.ln.cval()))
                    if len(res) != 1:
                        return None
                    vals.append(res[0][1])
                else:
                    return None
            if t.kind != 'W':
                if not all(v == vals[0] for v in vals):
                    return None
                out.append(Tmpl(t.kind, t.off, t.ln, vals[0]))
                continue
            # recurrence on the previous iteration?
            mk = None
            for v in vals:
                for i in v.atoms():
                    a = ATOMS[i]
                    if a.kind == 'app' and a.data[0].startswith('mark'):
                        mk = a
            if mk is not None:
                if P(mk.data[1][0]) != self.pn - 1:
                    return None
                js = [j for j, v in enumerate(vals) if mk.id in v.atoms()]
                ds = [strip_wrap(vals[j]) - Poly.atom(mk) for j in js]
                d = self.merge(Sg, [backs[j] for j in js], ds)
                if d is None or not self.only_n(d):
                    return None
                # which template does the marker stand for?
                A = subst(t.off, {self.n.id: self.pn + 1}) - t.off
                c0 = self.rd0(o, subst(t.off, {self.n.id: ZERO}) - A, t.ln.cval())
                if c0 is None:
                    return None
                body = subst(d, {self.n.id: Poly.atom(PLACE)})
                out.append(Tmpl('W', t.off, t.ln, c0 + sum_(body, self.pn + 1)))
                continue
            v = self.merge(Sg, backs, vals)
            if v is None:
                return None
            if not self.only_n(v):
                v = self.skolem(v)
                if v is None:
                    return None
            out.append(Tmpl('W', t.off, t.ln, v))
        if not out:
            return None
        # geometry
        step = [subst(t.off, {self.n.id: self.pn + 1}) - t.off for t in out]
        if all(s == step[0] for s in step) and not self.variant(step[0]):
            A = step[0]
            b0 = [subst(t.off, {self.n.id: ZERO}) for t in out]
            lo = b0[0]
            for x in b0[1:]:
                d = x - lo
                if not d.is_const():
                    return None
                if d.cval() < 0:
                    lo = x
            ext = max((x - lo).cval() + (t.ln.cval() if t.ln.is_const() else 0) for x, t in zip(b0, out))
            if any(not t.ln.is_const() for t in out):
                if len(out) != 1 or out[0].ln != A:
                    return None
            elif A.is_const():
                if abs(A.cval()) < ext:
                    return None
            elif not self.S0.must(ge(A, ext)):
                return None
            r = Region(o, self.n, self.pn, out, self.S0.mem[oid].log, A, lo)
        else:
            # offset is an uninterpreted function of the element number
            fn = None
            for t in out:
                ap = [ATOMS[i] for i in t.off.atoms() if ATOMS[i].kind == 'app' and ATOMS[i].data[0].startswith('eoff') and self.variant(Poly.atom(ATOMS[i]))]
                if len(ap) != 1:
                    return self.scatter(Sg, backs, o, oid, out)
                a = ap[0]
                base = t.off - Poly.atom(a)
                if self.variant(base):
                    return None
                idx = P(a.data[1][0])
                if (subst(idx, {self.n.id: self.pn + 1}) - idx) != 1:
                    return None
                if fn is None:
                    fn = (a.data[0], idx, base, tuple(a.data[1][1:]))
                elif fn[0] != a.data[0] or fn[1] != idx or not (base - fn[2]).is_const():
                    return None
            r = RegionE(o, self.n, self.pn, out, self.S0.mem[oid].log, ('fn', fn[0], fn[3]), fn[2])
            r.idx0 = fn[1] - self.pn
        r.w = 'ok'
        return r
    def scatter(self, Sg, backs, o, oid, out):
        """entries written at places the body computes"""
        if any(t.kind != 'W' or t.ln != out[0].ln for t in out):
            return None
        r = Scatter(o, self.n, self.pn, out, self.S0.mem[oid].log, None, ZERO)
        base = len(Sg.pcs)
        alts = []
        for B in backs:
            fs = []
            for f in B.pcs[base:]:
                for g in conj(f):
                    if g.k in ('le', 'eq', 'not') and self.plain(g) and all(self.only_n(Poly({(i,): 1})) for i in fatoms(g)):
                        fs.append(g)
            alts.append(and_(*fs))
        r.facts = or_(*alts)
        r.w = 'ok'
        return r
    def skolem(self, v):
        """values chosen freshly in each iteration become functions of the iteration number"""
        mp = {}
        for i in deep_atoms(v):
            a = ATOMS[i]
            if is_fresh_after(a, self.S0.nd):
                mp[i] = app('it_%s_%d' % (a.name, self.id), self.pn, lo=a.lo, hi=a.hi)
        w = subst(v, mp)
        return w if self.only_n(w) else None
    # ---- verification of forms and candidates
    def maps(self, B):
        mp = {self.n.id: self.pn + 1}
        for it, a in self.items.items():
            if a is None:
                continue
            if self.form[it] is None:
                v = self.get1(B, it)
                if v is None:
                    v = Poly.atom(new_atom('unk', None, None))
                mp[a.id] = v
        if self.hint is not None:
            mp[self.hint.w.id] = self.hint.progress(self, B)
        return mp
    def mapi(self):
        mp = {self.n.id: ZERO}
        for it, a in self.items.items():
            if a is not None:
                mp[a.id] = self.init[it]
        if self.hint is not None:
            mp[self.hint.w.id] = ZERO
        return mp
    def checks(self, Sg, B, mp=None):
        """[(name, formula, item or None)] that must hold at the back edge B"""
        out = []
        mp = mp or self.maps(B)
        for it, a in self.items.items():
            if a is None or self.form[it] is None or (self.hint is not None and self.hint.covers(self, it)):
                continue
            want = subst(self.form[it], mp)
            out.append(('value of %s' % self.iname(it), self.valq(it, want), it))
        ent = None
        for oid, r in self.regions.items():
            if ent is None:
                ent = self.diff(Sg, B)
            es = [e for e in ent.get(oid, ()) if not (e[0] == 'W' and not self.variant(e[1]))]
            out.append(('writes to %s' % r.obj.name, self.regq(r, es), r))
        return out
    def valq(self, it, want):
        return lambda S: eq(self.get(S, it), want)
    def regq(self, r, es):
        """the body's writes amount to the templates of iteration n"""
        def q(S):
            o = r.obj
            fs = []
            log = r.base
            full = [('x',)]
            # every location written by the body or by the templates agrees
            tl = r.base
            for t in r.tmpls:
                tl = t.subst({}) + (tl, 0)
            if isinstance(r, Scatter):
                # the last write of the iteration to a place is that of the template; all are listed
                for e in es:
                    fs.append(or_(*[and_(eq(e[1], t.off), eq(e[3], t.payload)) if e[0] == 'W' and e[2] == t.ln and isinstance(e[3], Poly) else FALSE for t in r.tmpls]))
                fs.append(r.facts)
                return and_(*fs)
            for t in r.tmpls:
                if t.kind == 'W':
                    got = read_log(S, o, S.mem[o.id].log, t.off, t.ln.cval())
                    fs.append(eq(got, t.payload))
                else:
                    m = [e for e in es if e[0] == t.kind and e[1] == t.off and e[2] == t.ln and e[3] == t.payload]
                    if not m:
                        fs.append(FALSE)
            for e in es:
                if not any(self.inside(e[1], e[2], t.off, t.ln) for t in r.tmpls):
                    fs.append(FALSE)
            return and_(*fs)
        return q
    def iname(self, it):
        if it[0] == 'phi':
            return 'variable'
        if it[0] == 'cell':
            return self.S0.objs[it[1]].name
        return str(it[1])
    def holds(self, B, q):
        """q(S) provable on every fork?"""
        for s, f in self.ex.explore(B.copy(), q):
            if not s.must(f):
                return False
        return True
    def houdini(self):
        """True when forms and candidates are inductive; False when something had to be dropped"""
        ex = self.ex
        # forms hold on entry
        for it, a in self.items.items():
            if a is not None and self.form[it] is not None:
                f0 = subst(self.form[it], self.mapi())
                if not self.S0.must(eq(f0, self.init[it])):
                    self.form[it] = None
                    self.nofrm.add(it)
                    return False
        first = True
        for rnd in range(12):
            Sg = self.build(mark=False)
            c = self.run(Sg)
            self.Sg = Sg
            if not c.backs:
                return True
            if first:
                first = False
                if self.generate(Sg, c):
                    continue
            bad = False
            # candidates first: the forms may depend on them, so only drop forms when no candidate was dropped
            maps = [self.maps(B) for B in c.backs]
            keep = []
            for cd in self.cands:
                ok = True
                for B, mp in zip(c.backs, maps):
                    if not self.ent_holds(B, subst_f(cd, mp)):
                        ok = False
                        break
                if ok:
                    keep.append(cd)
                else:
                    bad = True
            self.cands = keep
            if bad:
                continue
            for B, mp in zip(c.backs, maps):
                for name, q, it in self.checks(Sg, B, mp):
                    if not self.holds(B, q):
                        if isinstance(it, Region):
                            self.regions.pop(it.obj.id, None)
                            self.havoc[it.obj.id] = Blob(it.obj.name)
                        else:
                            self.form[it] = None
                            self.nofrm.add(it)
                        bad = True
                        break
                if bad:
                    break
            if bad:
                return False
            if self.hint is not None:
                for B in c.backs:
                    for name, q in self.hint.checks(self, Sg, B):
                        if not self.holds(B, q):
                            self.ex.notes.append('loop specification %s fails at the back edge: %s' % (self.hint.name, name))
            return True
        return False
    def ent_holds(self, B, f):
        return f is TRUE or B.must(f)
    def generate(self, Sg, c):
        """candidate invariants; True when any was added"""
        S0 = self.S0
        mi = self.mapi()
        fresh_items = [(it, a) for it, a in self.items.items() if a is not None and self.form[it] is None
                       and not (self.hint is not None and self.hint.covers(self, it))]
        cs = []
        base = len(Sg.pcs)
        splitc = []
        for B in c.backs:
            mp = self.maps(B)
            for f in B.pcs[base:]:
                for g in conj(f):
                    if g.k != 'le' or not self.variant_f(g) or not self.plain(g):
                        continue
                    p = g.a
                    if self.only_n(p):
                        # what the iteration just passed established
                        cs.append(le0(subst(p, {self.n.id: self.pn - 1})))
                    p2 = subst(p, mp)
                    stp = strip_wrap(p2) - p
                    cs.append(g)
                    if not self.variant(stp):
                        cs.append(le0(p - stp))
                        splitc.append(le0(p - stp))
                    else:
                        cs.append(le0(p - 1))
        ats = [Poly.atom(a) for it, a in fresh_items]
        for it, a in fresh_items:
            x = Poly.atom(a)
            i0 = self.init[it]
            if any(ATOMS[i].kind == 'base' for i in i0.atoms()):
                continue
            cs += [ge(x, i0), le(x, i0), ge(x, 0)]
            for it2, a2 in fresh_items:
                if a2.id > a.id:
                    y = Poly.atom(a2)
                    cs += [le(x, y), lt(x, y), ge(x, y), gt(x, y), eq(x - y, i0 - self.init[it2])]
            cs += [le(x, i0 + self.pn), ge(x, i0 - self.pn)]
            # bounds of the entry path condition
            for jt, b in fresh_items:
                if jt != it:
                    cs += [le(x, self.init[jt]), ge(x, self.init[jt])]
        # table facts: a test on T[e] suggests the same test on T[x]
        seen = set()
        for B in c.backs + c.exits:
            for f in B.pcs[base:]:
                for g in conj(f):
                    if g.k != 'le':
                        continue
                    for i in g.a.atoms():
                        t = ATOMS[i]
                        if t.kind != 'app' or not self.variant(Poly.atom(t)):
                            continue
                        fn, args = t.data
                        for ai, arg in enumerate(args):
                            if isinstance(arg, Poly) and self.variant(arg):
                                for it, a in fresh_items:
                                    x = Poly.atom(a)
                                    na = list(args); na[ai] = x
                                    from .term import MAKERS
                                    mk = MAKERS.get(fn)
                                    r = mk(*na) if mk else app(fn, *na, lo=t.lo, hi=t.hi)
                                    h = le0(subst(g.a, {i: r}))
                                    key = (id(h), a.id)
                                    if key in seen:
                                        continue
                                    seen.add(key)
                                    cs.append(h)
                                    cs.append(or_(h, eq(x, self.init[it])))
        # running totals kept in memory stay in the range of their type
        for r in self.regions.values():
            for t in r.tmpls:
                if t.kind == 'W' and isinstance(t.payload, Poly) and any(ATOMS[i].kind == 'sum' or str(ATOMS[i].name).startswith('sum(') for i in t.payload.atoms()):
                    q = subst(t.payload, {self.n.id: self.pn - 1})
                    h = 1 << (8 * t.ln.cval() - 1)
                    cs += [ge(q, 0), le(q, h - 1)]
        if self.ex.only_hints:
            cs = []
        for h in (self.ex.inv_hints or ()):
            cs += list(h(self, Sg, c))
        out = []
        ids = set()
        for f in cs:
            if f is TRUE or f is FALSE or id(f) in ids:
                continue
            ids.add(id(f)); _keep.append(f)
            e = subst_f(f, mi)
            if S0.must(e):
                out.append(f)
            elif self.may_split and f in splitc and e is not FALSE and S0.may(e) and not self.unstable(e):
                raise Split(e)
        new = [f for f in out if id(f) not in self.seen_c]
        for f in new:
            self.seen_c.add(id(f))
        self.cands += new
        return bool(new)
    def unstable(self, e):
        return any(ATOMS[i].kind == 'item' for i in fatoms(e))
    def plain(self, g):
        """no atoms made up inside the body"""
        for i in fatoms(g):
            for j in deep_atoms(Poly({(i,): 1})):
                a = ATOMS[j]
                if is_fresh_after(a, self.S0.nd) or (a.kind == 'iter' and a.id > self.n.id) or (a.kind == 'base' and a.data.id not in self.S0.mem):
                    return False
                if a.kind == 'app' and a.data[0] == 'wq':
                    return False
                if a.kind == 'item' and a not in self.iset() and a.id > self.n.id:
                    return False
        return True
    def variant_f(self, g):
        return any(self.variant(Poly({(i,): 1})) for i in fatoms(g))
    # ---- final, recorded run
    def solve(self):
        ex = self.ex
        saved = ex.collect
        sd = ex.loop_depth
        ex.collect = False
        ex.loop_depth += 1
        try:
            self.infer()
        finally:
            ex.collect = saved
            ex.loop_depth = sd
        S = self.Sg
        c = self.run(S)
        if saved and not c.backs and not c.exits:
            pass
        for B in c.backs:
            self.accounted(S, B)
            self.leaks(S, B, saved)
        if saved:
            for B in c.backs:
                mp = self.maps(B)
                B.line = self.line
                for cd in self.cands:
                    ex.obligation(B.copy(), 'invariant', 'loop invariant is preserved', subst_f(cd, mp))
                for name, q, it in self.checks(S, B, mp):
                    for s, f in ex.explore(B.copy(), q):
                        ex.obligation(s, 'invariant', name, f)
                if self.hint is not None:
                    for name, q in self.hint.checks(self, S, B):
                        for s, f in ex.explore(B.copy(), q):
                            ex.obligation(s, 'invariant', name, f)
            if self.hint is not None:
                for name, q in self.hint.entry(self, self.S0):
                    for s, f in ex.explore(self.S0.copy(), q):
                        ex.obligation(s, 'invariant', 'on entry: ' + name, f)
            if c.backs and not self.terminates(S, c):
                B = c.backs[0]
                ex.record('termination', 'loop terminates', B, 'unknown')
            elif c.backs:
                ex.record('termination', 'loop terminates', c.backs[0], 'ok')
        ex.loop_log.append((self.f.name, self.line, len(self.cands)))
        return [self.simplify(e) for e in c.exits]
    def leaks(self, Sg, B, on):
        """what an iteration acquires it releases, or keeps an address of"""
        new = [oid for oid, os in B.mem.items() if oid not in Sg.mem and os.alive and B.objs[oid].kind in ('heap', 'file')]
        if not new or not on:
            return
        held = set()
        for oid, os in B.mem.items():
            old = Sg.mem.get(oid)
            l = os.log
            while l is not None and (old is None or l is not old.log):
                if isinstance(l[3], Poly):
                    held.update(ATOMS[i].data.id for i in deep_atoms(l[3]) if ATOMS[i].kind == 'base')
                elif l[0] in ('H', 'R', 'C'):
                    held = None
                    break
                l = l[4]
            if held is None:
                break
        for it in self.items:
            if it[0] == 'phi' and held is not None:
                v = self.get(B, it)
                if isinstance(v, Poly):
                    held.update(ATOMS[i].data.id for i in deep_atoms(v) if ATOMS[i].kind == 'base')
        for oid in new:
            file = B.objs[oid].kind == 'file'
            if file or held is not None and oid not in held:
                try:
                    self.ex.obligation(B.copy(), 'leak', '%s acquired by an iteration is released' % ('file handle' if file else 'heap object'), FALSE)
                except PathEnd:
                    pass
    def accounted(self, Sg, B):
        """every write of the body is covered by what the general state leaves open"""
        for oid, es in self.diff(Sg, B).items():
            if oid in self.havoc or (self.hint is not None and self.hint.owns(oid)):
                continue
            for kind, off, ln, payload, prev, seq in es:
                if self.variant(off):
                    if oid in self.regions:
                        continue
                elif any(k[0] == oid and self.inside(off, ln, k[1], b[0]) for k, b in self.blobs.items()):
                    continue
                elif kind == 'W':
                    it = ('cell', oid, off, ln.cval())
                    if it in self.items or (self.hint is not None and self.hint.covers(self, it)):
                        continue
                raise Unsupported('loop at line %d of %s: write to %s at %r not covered' % (self.line, self.f.name, Sg.objs[oid].name, off))
    def terminates(self, Sg, c):
        base = len(Sg.pcs)
        maps = [self.maps(B) for B in c.backs]
        ms = []
        if self.hint is not None:
            ms += self.hint.measures(self, Sg)
        for B in c.backs:
            for f in B.pcs[base:]:
                for g in conj(f):
                    if g.k == 'le' and self.plain(g) and self.variant_f(g):
                        ms.append(-g.a)
                    if g.k == 'not' and g.a.k == 'eq' and self.plain(g) and self.variant_f(g):
                        ms.append(g.a.a)
                        ms.append(-g.a.a)
        for m in dict.fromkeys(ms):
            if all(B.must(and_(ge(m, 0), lt(subst(m, mp), m))) for B, mp in zip(c.backs, maps)):
                return True
        return False
    def simplify(self, e):
        """express the number of iterations through loop-invariant terms when the exit determines it"""
        base = len(self.S0.pcs)
        ats = [self.n] + ([self.hint.w] if self.hint is not None else [])
        ats += [a for it, a in self.items.items() if a is not None and self.form[it] is None]
        for a in ats:
            key = (a.id,)
            done = False
            for f in list(e.pcs[base:]):
                for g in conj(f):
                    if g.k not in ('le', 'eq') or abs(g.a.t.get(key, 0)) != 1:
                        continue
                    if any(a.id in m and m != key for m in g.a.t):
                        continue
                    rest = g.a - Poly({key: g.a.t[key]})
                    if a.id in deep_atoms(rest):
                        continue
                    if any(ATOMS[j].kind in ('item',) and j > self.n.id for j in deep_atoms(rest)):
                        continue
                    if g.k == 'le' and not e.must(eq0(g.a)):
                        continue
                    val = rest * (-g.a.t[key])
                    e = subst_state(e, {a.id: val}, self.S0)
                    done = True
                    break
                if done:
                    break
        return e

class Scatter(Region):
    """entries of one width written at computed places: an entry is what some iteration wrote there, or the old one"""
    facts = TRUE
    def read(self, S, o, off, size):
        w = self.tmpls[0].ln.cval()
        c = self.count
        d = off - self.tmpls[0].off
        if size != w or any(x % w for t in self.tmpls for x in (off - t.off).t.values()):
            raise Unsupported('read of entries written at computed places')
        if self.marked or S.decide(le(c, 0)):
            if not self.marked:
                return None
        tag = id(self.tmpls)
        _keep.append(self.tmpls)
        v = app('sc%d' % tag, off, c, lo=-(1 << (8 * w - 1)), hi=(1 << (8 * w - 1)) - 1)
        m = app('scm%d' % tag, off, c, lo=0, hi=NMAX)
        old = read_log(S, o, self.base, off, size)
        mp = {self.n.id: m}
        alts = [eq(v, old)]
        for t in self.tmpls:
            e = t.subst(mp)
            alts.append(and_(lt(m, c), eq(e[1], off), eq(v, e[3]), subst_f(self.facts, mp)))
        S.assume(or_(*alts))
        return v
    def subst(self, mp):
        r = Region.subst(self, mp)
        r.__class__ = Scatter
        mp2 = {k: v for k, v in mp.items() if k != self.n.id}
        r.facts = subst_f(self.facts, mp2)
        return r

class RegionE(Region):
    """region addressed through an uninterpreted element-offset function"""
    idx0 = ZERO
    def index(self, S, off):
        k, r = Region.index(self, S, off)
        if k is None:
            return None, None
        return k - self.idx0, r
    def subst(self, mp):
        r = Region.subst(self, mp)
        r.__class__ = RegionE
        r.idx0 = subst(self.idx0, mp)
        return r

def conj(f):
    if f.k == 'and':
        out = []
        for g in f.a:
            out += conj(g)
        return out
    return [f]

def ratio(ds, ws):
    """common factor f with d = f*w for every pair"""
    f = None
    for d, w in zip(ds, ws):
        if w == 0:
            return None
        q = polydiv(d, w)
        if q is None or (f is not None and q != f):
            return None
        f = q
    return f

def polydiv(d, w):
    """exact quotient of polynomials"""
    if d == 0:
        return ZERO
    q = ZERO
    lead = max(w.t, key=lambda m: (len(m), m))
    for _ in range(12):
        if d == 0:
            return q
        dm = max(d.t, key=lambda m: (len(m), m))
        r = list(dm)
        try:
            for x in lead:
                r.remove(x)
        except ValueError:
            return None
        if d.t[dm] % w.t[lead]:
            return None
        t = Poly({tuple(r): d.t[dm] // w.t[lead]})
        q = q + t
        d = d - t * w
    return None

def merge_rec(ix, pcs, vals):
    if all(vals[i] == vals[ix[0]] for i in ix):
        return vals[ix[0]]
    for f in pcs[ix[0]]:
        nf = not_(f)
        yes = [i for i in ix if any(g is f for g in pcs[i])]
        no = [i for i in ix if any(g is nf or (g.k == nf.k and g.a == nf.a) for g in pcs[i])]
        if len(no) and len(yes) + len(no) == len(ix) and len(yes):
            a = merge_rec(yes, pcs, vals)
            b = merge_rec(no, pcs, vals)
            if a is None or b is None:
                return None
            return ite(f, a, b)
    return None

def subst_log(log, stop, mp, memo):
    es = []
    l = log
    while l is not None and l is not stop:
        es.append(l)
        l = l[4]
    for e in reversed(es):
        kind, off, ln, pl, prev, seq = e
        if kind == 'W':
            pl = subst_val(pl, mp)
        elif kind == 'F':
            pl = subst(pl, mp)
        elif kind == 'C':
            so, sl, sf = pl
            pl = (so, sl, subst(sf, mp))
        elif kind == 'R':
            pl = pl.subst(mp)
        elif kind == 'S':
            pl = tuple((p[0], p[1], subst(p[2], mp)) if p[0] == 'fmt' else
                       (p[0], subst(p[1], mp)) + p[2:] if isinstance(p[1], Poly) else p for p in pl)
        elif kind == 'H' and hasattr(pl, 'subst'):
            pl = pl.subst(mp)
        l = (kind, subst(off, mp), subst(ln, mp), pl, l, seq)
    return l

def subst_state(S, mp, S0):
    S = S.copy()
    for fr in S.frames:
        for k, v in fr.env.items():
            if isinstance(v, Poly):
                fr.env[k] = subst_val(v, mp)
            elif isinstance(v, F):
                fr.env[k] = subst_f(v, mp)
    for oid, os in list(S.mem.items()):
        o0 = S0.mem.get(oid)
        stop = o0.log if o0 is not None else None
        if os.log is not stop:
            S.mem[oid] = OS(subst_log(os.log, stop, mp, {}), os.alive)
    for k, v in list(S.ghost.items()):
        if isinstance(v, Poly):
            S.ghost[k] = subst_val(v, mp)
    base = len(S0.pcs)
    old = S.pcs
    S.pcs = list(old[:base])
    S.known = set(id(f) for f in S.pcs)
    for f in old[base:]:
        g = subst_f(f, mp)
        S.assume(g)
        _keep.append(g)
    return S
