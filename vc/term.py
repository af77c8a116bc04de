"""Integer polynomials over named atoms, formulas over them, and the solver front end.

Values of the verified program (integers and pointers alike) are canonical polynomials with
integer coefficients.  A pointer is the polynomial  base(obj) + offset.
"""
import math, time, itertools
import z3

class Atom:
    __slots__ = ('id', 'name', 'lo', 'hi', 'kind', 'data', 'z', 'extra')
    def __repr__(self):
        return self.name

ATOMS = []
INTERN = {}
_uid = itertools.count()

def new_atom(name, lo=None, hi=None, kind='var', data=None, key=None):
    if key is not None and key in INTERN:
        return INTERN[key]
    a = Atom()
    a.id = len(ATOMS)
    a.name = name
    a.lo = lo
    a.hi = hi
    a.kind = kind
    a.data = data
    a.z = None
    a.extra = ()
    ATOMS.append(a)
    if key is not None:
        INTERN[key] = a
    return a

def zatom(a):
    if a.z is None:
        a.z = z3.Int('%s#%d' % (a.name, a.id))
    return a.z

class Poly:
    __slots__ = ('t', '_h')
    def __init__(self, t):
        self.t = t
        self._h = None
    # -- construction
    @staticmethod
    def const(c):
        return Poly({(): c}) if c else ZERO
    @staticmethod
    def atom(a):
        return Poly({(a.id,): 1})
    # -- queries
    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)
    def cval(self):
        return self.t.get((), 0)
    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h
    def __eq__(self, o):
        if isinstance(o, int):
            return self.is_const() and self.cval() == o
        return isinstance(o, Poly) and self.t == o.t
    def __ne__(self, o):
        return not self.__eq__(o)
    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, int):
            if o == 0:
                return self
            o = Poly.const(o)
        if not o.t:
            return self
        if not self.t:
            return o
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                del r[m]
        return Poly(r)
    __radd__ = __add__
    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})
    def __sub__(self, o):
        if isinstance(o, int):
            return self + (-o)
        return self + (-o)
    def __rsub__(self, o):
        return (-self) + o
    def __mul__(self, o):
        if isinstance(o, int):
            if o == 0:
                return ZERO
            if o == 1:
                return self
            return Poly({m: c * o for m, c in self.t.items()})
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = m1 + m2 if not m1 or not m2 else tuple(sorted(m1 + m2))
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return Poly(r)
    __rmul__ = __mul__
    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s
    def nonlinear(self):
        return any(len(m) > 1 for m in self.t)
    def gcd(self):
        g = 0
        for m, c in self.t.items():
            if m:
                g = math.gcd(g, c)
        return g
    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: (len(x[0]), x[0])):
            if not m:
                out.append(str(c))
            else:
                s = '*'.join(ATOMS[i].name for i in m)
                out.append(s if c == 1 else '%d*%s' % (c, s))
        return ' + '.join(out)

ZERO = Poly({})
ONE = Poly({(): 1})

def C(c):
    return Poly.const(c)

def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly.atom(x)
    if isinstance(x, bool):
        return C(int(x))
    return C(x)

def var(name, lo=None, hi=None, **kw):
    return Poly.atom(new_atom(name, lo, hi, **kw))

def fresh(name, lo=None, hi=None):
    return Poly.atom(new_atom('%s~%d' % (name, next(_uid)), lo, hi))

def app(fn, *args, lo=None, hi=None):
    """uninterpreted function application, interned by its arguments"""
    args = tuple(P(a) if not isinstance(a, str) else a for a in args)
    key = ('app', fn, args)
    a = INTERN.get(key)
    if a is None:
        a = new_atom('%s(%s)' % (fn, ','.join(map(str, args))), lo, hi, 'app', (fn, args), key)
    return Poly.atom(a)

def define(p, *axioms):
    """attach universally valid axioms to the (single) atom of p"""
    (m, c), = p.t.items()
    a = ATOMS[m[0]]
    a.extra = tuple(a.extra) + tuple(x for x in axioms if x is not TRUE)
    return p

MAKERS = {}     # interpreted function name -> constructor from args

def subst(p, mp, memo=None):
    """replace atoms (by id) by polynomials, rebuilding applications"""
    if memo is None:
        memo = {}
    out = ZERO
    simple = {}
    for m, c in p.t.items():
        t = None
        ch = False
        for i in m:
            q = subst_atom(i, mp, memo)
            if q is not None:
                ch = True
        if not ch:
            simple[m] = c
            continue
        t = C(c)
        for i in m:
            q = subst_atom(i, mp, memo)
            t = t * (q if q is not None else Poly({(i,): 1}))
        out = out + t
    if out is ZERO and len(simple) == len(p.t):
        return p
    return out + Poly(simple)

def subst_atom(i, mp, memo):
    if i in mp:
        return mp[i]
    if i in memo:
        return memo[i]
    a = ATOMS[i]
    r = None
    if a.kind == 'app':
        fn, args = a.data
        na = tuple(subst(x, mp, memo) if isinstance(x, Poly) else x for x in args)
        if any(x is not y for x, y in zip(na, args)):
            mk = MAKERS.get(fn)
            r = mk(*na) if mk else app(fn, *na, lo=a.lo, hi=a.hi)
    elif a.kind == 'bool':
        f = subst_f(a.data, mp, memo)
        if f is not a.data:
            r = BOOLINT[0](f)
    memo[i] = r
    return r
BOOLINT = [None]

def subst_f(f, mp, memo=None):
    if memo is None:
        memo = {}
    k = f.k
    if k == 'le':
        q = subst(f.a, mp, memo)
        return f if q is f.a else le0(q)
    if k == 'eq':
        q = subst(f.a, mp, memo)
        return f if q is f.a else eq0(q)
    if k == 'not':
        g = subst_f(f.a, mp, memo)
        return f if g is f.a else not_(g)
    if k in ('and', 'or'):
        gs = [subst_f(x, mp, memo) for x in f.a]
        if all(x is y for x, y in zip(gs, f.a)):
            return f
        return and_(*gs) if k == 'and' else or_(*gs)
    return f

def fdivp(p, d):
    """floor division for d > 0"""
    p = P(p); d = P(d)
    if p.is_const() and d.is_const() and d.cval() != 0:
        return C(p.cval() // d.cval())
    if d.is_const():
        dc = d.cval()
        if dc == 1:
            return p
        if dc > 0:
            ex = Poly({m: c // dc for m, c in p.t.items() if c % dc == 0})
            re = Poly({m: c for m, c in p.t.items() if c % dc})
            if not re.t:
                return ex
            if re.is_const():
                return ex + (re.cval() // dc)
            lo, hi = bounds(re)
            q = app('fdiv', re, d, lo=None if lo is None else lo // dc, hi=None if hi is None else hi // dc)
            if not ATOMS[next(iter(q.t))[0]].extra:
                define(q, le(q * dc, re), le(re, q * dc + dc - 1))
            return ex + q
    elif len(d.t) == 1:
        (dm, dcf), = d.t.items()
        out = {}
        for m, c in p.t.items():
            mm = list(m)
            try:
                for x in dm:
                    mm.remove(x)
            except ValueError:
                break
            if c % dcf:
                break
            out[tuple(mm)] = c // dcf
        else:
            return Poly(out)
    lo, hi = bounds(p)
    q = app('fdiv', p, d)
    if not ATOMS[next(iter(q.t))[0]].extra:
        g = gt(d, 0)
        define(q, imp(g, and_(le(q * d, p), le(p, q * d + d - 1))),
               imp(and_(g, ge(p, 0)), and_(ge(q, 0), le(q, p))))
    return q
MAKERS['fdiv'] = fdivp

def ite(c, a, b):
    """c is a formula le0/eq0 or TRUE/FALSE"""
    if c is TRUE or a == b:
        return a
    if c is FALSE:
        return b
    if c.k == 'not':
        return ite(c.a, b, a)
    if c.k not in ('le', 'eq'):
        bi = BOOLINT[0](c)
        c = eq(bi, 1)
    return ite_p(c.k, c.a, a, b)
def ite_p(k, cp, a, b):
    c = le0(cp) if k == 'le' else eq0(cp)
    if c is TRUE or a == b:
        return a
    if c is FALSE:
        return b
    if k == 'le':
        # one form for a condition and its negation
        m = min((x for x in cp.t if x), key=lambda x: (len(x), x), default=None)
        if m is not None and cp.t[m] > 0:
            cp, a, b = 1 - cp, b, a
            c = le0(cp)
            if c is TRUE or c is FALSE or c.k != 'le':
                return ite(c, a, b)
            cp = c.a
    la, ha = bounds(a); lb, hb = bounds(b)
    v = app('ite', k, cp, a, b, lo=None if la is None or lb is None else min(la, lb),
            hi=None if ha is None or hb is None else max(ha, hb))
    if not ATOMS[next(iter(v.t))[0]].extra:
        define(v, imp(c, eq(v, a)), imp(not_(c), eq(v, b)))
    return v
MAKERS['ite'] = ite_p

PLACE = new_atom('#')
def sum_(body, n, unfold=True):
    """sum of body[#:=k] for 0 <= k < n ; body is a polynomial over the placeholder"""
    n = P(n)
    if n.is_const():
        c = n.cval()
        if c <= 0:
            return ZERO
        if c <= 4:
            t = ZERO
            for k in range(c):
                t = t + subst(body, {PLACE.id: C(k)})
            return t
    if PLACE.id not in body.atoms() and not _has_place(body):
        return body * n          # only used for n >= 0
    lo, hi = bounds(body)
    v = app('sum', body, n, lo=0 if lo is not None and lo >= 0 else None)
    a = ATOMS[next(iter(v.t))[0]]
    if unfold and len(a.extra) < 2:
        prev = sum_(body, n - 1, False)
        last = subst(body, {PLACE.id: n - 1})
        a.extra = (imp(le(n, 0), eq(v, 0)), imp(ge(n, 1), eq(v, prev + last)))
        if lo is not None and lo >= 0:
            a.extra = a.extra + (imp(ge(n, 1), ge(v, subst(body, {PLACE.id: ZERO}))),)
            if hi is not None and hi <= 16:
                a.extra = a.extra + (imp(ge(n, 0), le(v, n * hi)),)
        for m in SUMS.setdefault(body, []):
            w = sum_(body, m, False)
            if lo is not None and lo >= 0:
                a.extra = a.extra + (imp(le(m, n), le(w, v)), imp(le(n, m), le(v, w)))
                if any(len(x) > 1 for x in body.t):
                    # widths as products: one more term still fits below a later total
                    a.extra = a.extra + (imp(lt(m, n), le(w + subst(body, {PLACE.id: m}), v)), imp(lt(n, m), le(v + subst(body, {PLACE.id: n}), w)))
        if len(SUMS[body]) < 24:
            SUMS[body].append(n)
    return v
SUMS = {}
MAKERS['sum'] = sum_

def _has_place(p):
    for i in p.atoms():
        a = ATOMS[i]
        if a is PLACE:
            return True
        if a.kind == 'app' and a.data[0] != 'sum' and any(isinstance(x, Poly) and _has_place(x) for x in a.data[1]):
            return True
        if a.kind == 'bool' and any(_has_place(Poly.atom(ATOMS[j])) for j in fatoms(a.data)):
            return True
    return False

def deep_atoms(p, out=None):
    """atoms occurring at any depth"""
    if out is None:
        out = set()
    for i in p.atoms():
        if i in out:
            continue
        out.add(i)
        a = ATOMS[i]
        if a.kind == 'app':
            for x in a.data[1]:
                if isinstance(x, Poly):
                    deep_atoms(x, out)
        elif a.kind == 'bool':
            for j in fatoms(a.data):
                deep_atoms(Poly({(j,): 1}), out)
    return out

def bounds(p):
    lo = hi = 0
    for m, c in p.t.items():
        if not m:
            lo = None if lo is None else lo + c
            hi = None if hi is None else hi + c
            continue
        l, h = 1, 1
        first = True
        for i in m:
            a = ATOMS[i]
            if first:
                l, h = a.lo, a.hi
                first = False
            else:
                al, ah = a.lo, a.hi
                if l is not None and h is not None and al is not None and ah is not None:
                    c4 = [l * al, l * ah, h * al, h * ah]
                    l, h = min(c4), max(c4)
                elif l is not None and al is not None and l >= 0 and al >= 0:
                    l = l * al
                    h = None
                else:
                    l = h = None
        if c < 0:
            l, h = h, l
        lo = None if (lo is None or l is None) else lo + l * c
        hi = None if (hi is None or h is None) else hi + h * c
        if lo is None and hi is None:
            return None, None
    return lo, hi

# ---------------------------------------------------------------- formulas
class F:
    __slots__ = ('k', 'a', 'z', 'zn', 'ats')
    def __init__(self, k, a):
        self.k = k; self.a = a; self.z = None; self.zn = None; self.ats = None
    def __repr__(self):
        k = self.k
        if k == 'le':
            return '(%r <= 0)' % self.a
        if k == 'eq':
            return '(%r == 0)' % self.a
        if k == 'not':
            return '!%r' % (self.a,)
        if k in ('and', 'or'):
            return '(' + (' & ' if k == 'and' else ' | ').join(map(repr, self.a)) + ')'
        return k

TRUE = F('true', None)
FALSE = F('false', None)
_fint = {}

def _mk(k, p):
    key = (k, p)
    f = _fint.get(key)
    if f is None:
        f = F(k, p)
        _fint[key] = f
    return f

def _mkn(k, fs):
    fs = tuple(fs)
    key = (k,) + tuple(map(id, fs))
    f = _fint.get(key)
    if f is None:
        f = F(k, fs)
        _fint[key] = f
    return f

def le0(p):
    if p.is_const():
        return TRUE if p.cval() <= 0 else FALSE
    g = p.gcd()
    if g > 1:
        c = p.t.get((), 0)
        q = {m: v // g for m, v in p.t.items() if m}
        c2 = -((-c) // g)      # ceil(c/g)
        if c2:
            q[()] = c2
        p = Poly(q)
    lo, hi = bounds(p)
    if hi is not None and hi <= 0:
        return TRUE
    if lo is not None and lo > 0:
        return FALSE
    return _mk('le', p)

def eq0(p):
    if p.is_const():
        return TRUE if p.cval() == 0 else FALSE
    g = p.gcd()
    if g > 1:
        c = p.t.get((), 0)
        if c % g:
            return FALSE
        p = Poly({m: v // g for m, v in p.t.items()})
    # sign normal form
    m = min(x for x in p.t if x)
    if p.t[m] < 0:
        p = -p
    lo, hi = bounds(p)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    return _mk('eq', p)

def le(a, b):
    return le0(P(a) - P(b))
def lt(a, b):
    return le0(P(a) - P(b) + 1)
def ge(a, b):
    return le0(P(b) - P(a))
def gt(a, b):
    return lt(b, a)
def eq(a, b):
    return eq0(P(a) - P(b))
def ne(a, b):
    return not_(eq(a, b))

def not_(f):
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    if f.k == 'not':
        return f.a
    if f.k == 'le':
        return le0(-f.a + 1)
    if f.k == 'and':
        return or_(*[not_(x) for x in f.a])
    if f.k == 'or':
        return and_(*[not_(x) for x in f.a])
    return _mk('not', f)

def and_(*fs):
    out = []
    for f in fs:
        if f is FALSE:
            return FALSE
        if f is TRUE:
            continue
        if f.k == 'and':
            out.extend(f.a)
        else:
            out.append(f)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mkn('and', out)

def or_(*fs):
    out = []
    for f in fs:
        if f is TRUE:
            return TRUE
        if f is FALSE:
            continue
        if f.k == 'or':
            out.extend(f.a)
        else:
            out.append(f)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mkn('or', out)

def imp(a, b):
    return or_(not_(a), b)

def fatoms(f):
    if f.ats is None:
        if f.k in ('le', 'eq'):
            f.ats = frozenset(f.a.atoms())
        elif f.k == 'not':
            f.ats = fatoms(f.a)
        elif f.k in ('and', 'or'):
            s = set()
            for x in f.a:
                s |= fatoms(x)
            f.ats = frozenset(s)
        else:
            f.ats = frozenset()
    return f.ats

def fmonos(f, out):
    if f.k in ('le', 'eq'):
        for m in f.a.t:
            if len(m) > 1:
                out.add(m)
    elif f.k == 'not':
        fmonos(f.a, out)
    elif f.k in ('and', 'or'):
        for x in f.a:
            fmonos(x, out)
    return out

_mono = {}
def zmono(m):
    if len(m) == 1:
        return zatom(ATOMS[m[0]])
    z = _mono.get(m)
    if z is None:
        z = z3.Int('M' + '_'.join(map(str, m)))
        _mono[m] = z
    return z

def zpoly(p, nl):
    terms = []
    for m, c in p.t.items():
        if not m:
            terms.append(z3.IntVal(c))
        else:
            if nl and len(m) > 1:
                v = zatom(ATOMS[m[0]])
                for i in m[1:]:
                    v = v * zatom(ATOMS[i])
            else:
                v = zmono(m)
            terms.append(v if c == 1 else v * z3.IntVal(c))
    if not terms:
        return z3.IntVal(0)
    return z3.Sum(terms) if len(terms) > 1 else terms[0]

def zf(f, nl=False):
    c = f.zn if nl else f.z
    if c is not None:
        return c
    k = f.k
    if k == 'le':
        r = zpoly(f.a, nl) <= 0
    elif k == 'eq':
        r = zpoly(f.a, nl) == 0
    elif k == 'not':
        r = z3.Not(zf(f.a, nl))
    elif k == 'and':
        r = z3.And([zf(x, nl) for x in f.a])
    elif k == 'or':
        r = z3.Or([zf(x, nl) for x in f.a])
    elif k == 'true':
        r = z3.BoolVal(True)
    else:
        r = z3.BoolVal(False)
    if nl:
        f.zn = r
    else:
        f.z = r
    return r

class Stats:
    def __init__(self):
        self.lin = 0; self.nia = 0; self.time = 0.0; self.unknown = 0; self.quick = 0; self.cvc5 = 0; self.hits = 0; self.reused = 0
STATS = Stats()

def mono_lemmas(m):
    """valid facts about a product of bounded atoms"""
    out = []
    if len(m) == 2:
        a, b = ATOMS[m[0]], ATOMS[m[1]]
        pm = Poly({m: 1}); pa = Poly.atom(a); pb = Poly.atom(b)
        if a.lo is not None and a.lo >= 0 and b.lo is not None and b.lo >= 0:
            out.append(_mk('le', -pm))
        # (a-alo)*(b-blo) >= 0 etc.
        if a.lo is not None and b.lo is not None:
            out.append(le0(-(pm - pa * b.lo - pb * a.lo + a.lo * b.lo)))
        if a.hi is not None and b.hi is not None and max(abs(a.hi), abs(b.hi)) < 1 << 70:
            out.append(le0(-(pm - pa * b.hi - pb * a.hi + a.hi * b.hi)))
        if a.lo is not None and b.hi is not None:
            out.append(le0(pm - pa * b.hi - pb * a.lo + a.lo * b.hi))
        if a.hi is not None and b.lo is not None:
            out.append(le0(pm - pa * b.lo - pb * a.hi + a.hi * b.lo))
        if a is b:
            out.append(_mk('le', -pm))
    else:
        if all(ATOMS[i].lo is not None and ATOMS[i].lo >= 0 for i in m):
            out.append(_mk('le', Poly({m: -1})))
            # m = head * rest, rest a mono: if head.lo>=1 then m >= rest
            for j, i in enumerate(m):
                if ATOMS[i].lo >= 1:
                    rest = m[:j] + m[j+1:]
                    out.append(_mk('le', Poly({rest: 1, m: -1})))
    return [x for x in out if x is not TRUE]

def budget(s, ms):
    """bound a query by the solver's own count of its work, so that the answer does not depend on
    how busy the machine is; the clock is only a backstop"""
    s.set('rlimit', ms * 3000)
    s.set('timeout', ms * 20)

class Solver:
    """incremental linear solver over a trail of path conditions, with a nonlinear fallback"""
    def __init__(self, nia_ms=3000):
        self.s = z3.SolverFor('QF_LIA') if False else z3.Solver()
        budget(self.s, 4000)
        self.trail = []       # list of F
        self.marks = []       # per frame: (set of atoms added, monos added)
        self.seen_atoms = set()
        self.seen_monos = set()
        self.nia_ms = nia_ms
        self.cache = {}

    def patient(self, on):
        if on:
            self._nia0 = self.nia_ms
            self.nia_ms = 30000
            budget(self.s, 30000)
        else:
            self.nia_ms = self._nia0
            budget(self.s, 4000)

    def _decl(self, f, added):
        todo = [f]
        monos = set()
        while todo:
            g = todo.pop()
            for i in fatoms(g):
                if i not in self.seen_atoms:
                    self.seen_atoms.add(i)
                    added[0].append(i)
                    a = ATOMS[i]
                    z = zatom(a)
                    if a.lo is not None:
                        self.s.add(z >= a.lo)
                    if a.hi is not None:
                        self.s.add(z <= a.hi)
                    for l in a.extra:
                        self.s.add(zf(l))
                        todo.append(l)
                    if a.kind == 'bool':
                        self.s.add((z == 1) == zf(a.data))
                        todo.append(a.data)
            ms = fmonos(g, set())
            for m in ms:
                if m not in self.seen_monos:
                    self.seen_monos.add(m)
                    added[1].append(m)
                    for l in mono_lemmas(m):
                        self.s.add(zf(l))
                        todo.append(l)

    def sync(self, pcs):
        tr = self.trail
        n = 0
        L = min(len(tr), len(pcs))
        while n < L and tr[n] is pcs[n]:
            n += 1
        k = len(tr) - n
        if k:
            self.s.pop(k)
            for _ in range(k):
                tr.pop()
                aa, mm = self.marks.pop()
                self.seen_atoms.difference_update(aa)
                self.seen_monos.difference_update(mm)
        for f in pcs[n:]:
            self.s.push()
            added = ([], [])
            self._decl(f, added)
            self.s.add(zf(f))
            tr.append(f)
            self.marks.append(added)

    def _query(self, pcs, f):
        """is pcs & f satisfiable in the linear abstraction?"""
        t0 = time.time()
        self.sync(pcs)
        self.s.push()
        added = ([], [])
        self._decl(f, added)
        self.s.add(zf(f))
        r = self.s.check()
        m = self.s.model() if r == z3.sat else None
        self.s.pop()
        self.seen_atoms.difference_update(added[0])
        self.seen_monos.difference_update(added[1])
        STATS.lin += 1
        STATS.time += time.time() - t0
        return r, m

    def feasible(self, pcs, f):
        if f is FALSE:
            return False
        key = (len(pcs), id(pcs[-1]) if pcs else 0, id(f), 's')
        r, m = self._query(pcs, f)
        return r != z3.unsat

    def valid_lin(self, pcs, f):
        if f is TRUE:
            return True
        if f is FALSE and False:
            return False
        r, m = self._query(pcs, not_(f))
        return r == z3.unsat

    def valid(self, pcs, f, nl=True, want_model=False):
        """returns (True, None) | (False, model or None) | (None, None) for unknown"""
        if f is TRUE:
            STATS.quick += 1
            return True, None
        nf = not_(f)
        r, m = self._query(pcs, nf)
        if r == z3.unsat:
            return True, None
        if not nl:
            return (False if r == z3.sat else None), None
        rel = list(pcs) + [nf]
        # does any product take part?
        rel2 = close_axioms(rel)
        has_nl = any(fmonos(g, set()) for g in rel2) or bool(ackermann(rel2))
        if not has_nl:
            if r == z3.sat:
                return False, self.model(m, rel)
            return None, None
        t0 = time.time()
        STATS.nia += 1
        res, mod = nia_check(rel, self.nia_ms)
        STATS.time += time.time() - t0
        if res == z3.unsat:
            return True, None
        if res == z3.sat:
            return False, self.model(mod, rel)
        STATS.unknown += 1
        return None, None

    def absurd(self, pcs):
        """the whole path condition is unsatisfiable (a goal is checked against its cone only)"""
        if not pcs:
            return False
        r, m = self._query(pcs, TRUE)
        if r == z3.unsat:
            return True
        if not any(fmonos(g, set()) for g in pcs):
            return False
        return nia_check(list(pcs), self.nia_ms, whole=True)[0] == z3.unsat

    def model(self, m, rel):
        out = {}
        ats = set()
        for f in rel:
            ats |= fatoms(f)
        for i in sorted(ats):
            a = ATOMS[i]
            try:
                out[a.name] = m.value(a) if isinstance(m, DictModel) else m.eval(zatom(a), model_completion=True).as_long()
            except Exception:
                pass
        return out

def cone(fs, goal):
    """conditions sharing atoms (transitively) with the goal"""
    ats = set()
    for f in close_axioms([goal]):
        ats |= fatoms(f)
    rem = list(fs)
    out = []
    ch = True
    while ch:
        ch = False
        nr = []
        for f in rem:
            if fatoms(f) & ats:
                ats |= fatoms(f)
                out.append(f)
                ch = True
            else:
                nr.append(f)
        rem = nr
    return out

def close_axioms(fs):
    """add the definitional axioms of every atom that occurs"""
    out = list(fs)
    seen = set()
    have = set(id(f) for f in fs)
    i = 0
    while i < len(out):
        for x in fatoms(out[i]):
            if x in seen:
                continue
            seen.add(x)
            a = ATOMS[x]
            for l in a.extra:
                if id(l) not in have:
                    have.add(id(l))
                    out.append(l)
            if a.kind == 'bool':
                b = eq0(Poly.atom(a) - 1)
                for l in (or_(not_(b), a.data), or_(b, not_(a.data))):
                    if l is not TRUE:
                        out.append(l)
        i += 1
    return out

def ackermann(rel):
    """congruence of uninterpreted applications"""
    groups = {}
    ats = set()
    for f in rel:
        ats |= fatoms(f)
    for x in sorted(ats):
        a = ATOMS[x]
        if a.kind == 'app':
            groups.setdefault((a.data[0], len(a.data[1])), []).append(a)
    out = []
    for g in groups.values():
        if len(g) > 12:
            continue
        for i in range(len(g)):
            for j in range(i):
                ds = [eq(p, q) if isinstance(p, Poly) and isinstance(q, Poly) else (TRUE if p == q else FALSE)
                      for p, q in zip(g[i].data[1], g[j].data[1])]
                c = and_(*ds)
                if c is FALSE or c is TRUE:
                    continue
                out.append(imp(c, eq(Poly.atom(g[i]), Poly.atom(g[j]))))
    return [o for o in out if o is not TRUE]

def nia_check(rel, ms, whole=False):
    goal = rel[-1]
    if whole:
        rel = close_axioms(rel)
    else:
        rel = close_axioms(cone(close_axioms(rel[:-1]), goal) + [goal])
    key = frozenset(map(id, rel))
    c = _niacache.get(key)
    if c is not None and (c[0] != z3.unknown or c[3] >= ms):
        STATS.hits += 1
        return c[0], c[1]
    rel = rel + ackermann(rel)
    ats = set()
    for f in rel:
        ats |= fatoms(f)
    r, m = reuse_model(rel, ats), None
    if r is not None:
        STATS.reused += 1
        r, m = z3.sat, r
    else:
        r, m = nia_solve(rel, ats, ms)
        if r == z3.sat:
            keep_model(m, ats)
    _niacache[key] = (r, m, rel, ms)
    return r, m

_niacache = {}
_models = []

class DictModel:
    """a model given by the values of the atoms"""
    def __init__(self, d):
        self.d = d
    def value(self, a):
        return self.d.get(a.id, 0)

def keep_model(m, ats):
    d = {}
    for i in ats:
        try:
            d[i] = m.eval(zatom(ATOMS[i]), model_completion=True).as_long()
        except Exception:
            return
    _models.append(d)
    if len(_models) > 40:
        del _models[0]

def evalf(f, d):
    k = f.k
    if k == 'le' or k == 'eq':
        v = 0
        for m, c in f.a.t.items():
            for i in m:
                c *= d[i]
            v += c
        return v <= 0 if k == 'le' else v == 0
    if k == 'not':
        return not evalf(f.a, d)
    if k == 'and':
        return all(evalf(x, d) for x in f.a)
    if k == 'or':
        return any(evalf(x, d) for x in f.a)
    return k == 'true'

def reuse_model(rel, ats):
    """the values of an earlier model satisfy the formulas too (checked by evaluation)"""
    for n in range(len(_models) - 1, -1, -1):
        d = _models[n]
        miss = [i for i in ats if i not in d]
        if len(miss) > 3:
            continue
        if miss:
            d = dict(d)
            for i in miss:
                a = ATOMS[i]
                d[i] = max(0, a.lo) if a.lo is not None else 0
        ok = True
        for i in ats:
            a = ATOMS[i]
            v = d[i]
            if a.lo is not None and v < a.lo or a.hi is not None and v > a.hi:
                ok = False
                break
        if ok and all(evalf(f, d) for f in reversed(rel)):
            if n < len(_models) - 1:
                _models.append(_models.pop(n))
            return DictModel(d)

def nia_solve(rel, ats, ms):
    monos = set()
    for f in rel:
        fmonos(f, monos)
    ats = set(ats)
    def base(s, nl):
        for i in ats:
            a = ATOMS[i]
            if a.lo is not None:
                s.add(zatom(a) >= a.lo)
            if a.hi is not None:
                s.add(zatom(a) <= a.hi)
        for f in rel:
            s.add(zf(f, nl))
    # 1. linear abstraction with products of pairs of known facts (bounded)
    s = z3.Solver()
    budget(s, ms)
    base(s, False)
    lem = []
    facts = []
    for f in rel:
        st = [f]
        while st:
            g = st.pop()
            if g.k == 'and':
                st.extend(g.a)
            elif g.k == 'le' and len(g.a.t) <= 4 and not g.a.nonlinear():
                facts.append(-g.a)     # fact >= 0
            elif g.k == 'not' and g.a.k == 'eq':
                pass
    monoatoms = set()
    for m in monos:
        monoatoms.update(m)
    facts = [p for p in facts if p.atoms() <= monoatoms or (p.atoms() & monoatoms)]
    bf = []
    for i in monoatoms:
        a = ATOMS[i]
        if a.lo is not None:
            bf.append(Poly.atom(a) - a.lo)
        if a.hi is not None and abs(a.hi) < 1 << 40:
            bf.append(a.hi - Poly.atom(a))
    cand = list(dict.fromkeys(facts + bf))
    mset = set(monos)
    if len(cand) <= 60:
        for x in range(len(cand)):
            for y in range(x, len(cand)):
                pr = cand[x] * cand[y]
                pm = [m for m in pr.t if len(m) > 1]
                if pm and sum(1 for m in pm if m not in mset) <= (0 if len(pm) > 1 else 0):
                    lem.append(le0(-pr))
    lem = [l for l in dict.fromkeys(lem) if l is not TRUE]
    for l in lem[:400]:
        s.add(zf(l))
        for i in fatoms(l):
            a = ATOMS[i]
            if i not in ats:
                ats.add(i)
                if a.lo is not None:
                    s.add(zatom(a) >= a.lo)
                if a.hi is not None:
                    s.add(zatom(a) <= a.hi)
    for m in monos:
        for l in mono_lemmas(m):
            s.add(zf(l))
    r = s.check()
    if r == z3.unsat:
        return r, None
    # 2. genuine nonlinear arithmetic
    s = z3.SolverFor('QF_NIA')
    budget(s, ms)
    base(s, True)
    r = s.check()
    if r == z3.unsat:
        return r, None
    if r == z3.sat:
        return r, s.model()
    return r, None
