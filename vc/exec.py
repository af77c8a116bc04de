"""Symbolic executor / verification-condition generator over LLVM IR.

One function is executed at a time over all paths; calls to functions under contract use the
contract, calls to libc/MPI use assumed models, other calls are inlined.  Loops are either
executed completely (when every iteration's governing test is decided) or cut by inductive
invariants found by the Houdini procedure among templates (see loops.py).
"""
import itertools, time
from .term import *
from . import ir

class Fork(Exception):
    """the current step needs a case split on cond"""
    def __init__(self, cond):
        self.cond = cond

class Unsupported(Exception):
    pass

class NeedInv(Exception):
    def __init__(self, why):
        self.why = why

class PathEnd(Exception):
    """path ends here (abort / infeasible)"""

class Budget(Exception):
    pass

class Obj:
    _n = itertools.count()
    def __init__(self, name, size, kind='heap', reader=None, base=None, cstr=None, const=False, **info):
        self.id = next(Obj._n)
        self.name = name
        self.size = P(size) if size is not None else None
        self.kind = kind
        self.reader = reader
        self.cstr = cstr           # function(S, off) -> parts or None
        self.const = const
        self.info = info
        if base is None:
            self.batom = new_atom('&%s.%d' % (name, self.id), lo=4096, hi=(1 << 62), kind='base', data=self)
        else:
            self.batom = base
        self.base = Poly.atom(self.batom)
    def __repr__(self):
        return '<%s>' % self.name
    def at(self, off=0):
        return self.base + off

BASE_CACHE = {}

class OS:
    """state of one object"""
    __slots__ = ('log', 'alive')
    def __init__(self, log=None, alive=True):
        self.log = log
        self.alive = alive

# log entry: (kind, off, len, payload, prev, seq)
_seq = itertools.count()

class Frame:
    __slots__ = ('func', 'block', 'prev', 'idx', 'env', 'ret_to', 'allocas', 'lid')
    def __init__(self, func):
        self.func = func; self.block = func.order[0]; self.prev = None; self.idx = 0
        self.env = {}; self.ret_to = None; self.allocas = (); self.lid = None
    def copy(self):
        f = Frame.__new__(Frame)
        f.func = self.func; f.block = self.block; f.prev = self.prev; f.idx = self.idx
        f.env = dict(self.env); f.ret_to = self.ret_to; f.allocas = self.allocas; f.lid = self.lid
        return f

class State:
    __slots__ = ('ex', 'frames', 'mem', 'pcs', 'ghost', 'nd', 'trace', 'known', 'qseen', 'ret', 'objs', 'dead', 'line')
    def __init__(self, ex):
        self.ex = ex
        self.frames = []
        self.mem = {}
        self.pcs = []
        self.ghost = {}
        self.nd = 0
        self.trace = ()
        self.known = set()
        self.qseen = set()
        self.ret = None
        self.objs = {}
        self.dead = False
        self.line = 0
    def copy(self):
        s = State.__new__(State)
        s.ex = self.ex
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pcs = list(self.pcs)
        s.ghost = dict(self.ghost)
        s.nd = self.nd
        s.trace = self.trace
        s.known = set(self.known)
        s.qseen = set(self.qseen)
        s.ret = self.ret
        s.objs = dict(self.objs)
        s.dead = self.dead
        s.line = self.line
        return s
    def view(self, old):
        """the memory and ghosts of `old` under the path conditions of self"""
        s = self.copy()
        s.mem = dict(old.mem)
        s.ghost = dict(old.ghost)
        return s
    # ---------- logic
    def assume(self, f):
        if f is TRUE:
            return
        if f.k == 'and':
            for x in f.a:
                self.assume(x)
            return
        i = id(f)
        if i in self.known:
            return
        self.known.add(i)
        self.pcs.append(f)
    def must(self, f, nl=True):
        """provable from the path condition?"""
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        if id(f) in self.known:
            return True
        r = self.ex.solver.valid(self.pcs, f, nl=nl)[0]
        if r:
            self.known.add(id(f))
            _keep.append(f)
            return True
        return False
    def may(self, f):
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        return self.ex.solver.feasible(self.pcs, f)
    def decide(self, f, nl=True):
        """True / False, or raise Fork"""
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        if id(f) in self.known:
            return True
        nf = not_(f)
        if id(nf) in self.known:
            return False
        if self.must(f, nl):
            return True
        if self.must(nf, nl):
            return False
        raise Fork(f)
    branch = decide
    def fresh(self, name, lo=None, hi=None):
        self.nd += 1
        a = new_atom('%s.%d' % (name, self.nd), lo, hi, 'fresh', self.nd, key=('fresh', name, self.nd, lo, hi))
        return Poly.atom(a)
    def nondet(self, name):
        """free boolean choice"""
        self.nd += 1
        a = new_atom('?%s.%d' % (name, self.nd), 0, 1, 'fresh', self.nd, key=('nondet', name, self.nd))
        return self.decide(eq(Poly.atom(a), 1))
    # ---------- obligations
    def oblige(self, kind, name, f):
        self.ex.obligation(self, kind, name, f)
    def require(self, name, f):
        self.ex.obligation(self, 'requires', name, f)
    # ---------- objects
    def add(self, obj, log=None):
        self.objs[obj.id] = obj
        self.mem[obj.id] = OS(log, True)
        return obj
    def alloc(self, name, size, kind='heap', **kw):
        """new object, identity determined by the path position so that re-execution is stable"""
        self.nd += 1
        key = ('obj', name, self.nd, kind)
        o = BASE_CACHE.get(key)
        if o is None or (o.size != (P(size) if size is not None else None)) or kw:
            o = Obj(name, size, kind, **kw)
            BASE_CACHE[key] = o
        self.objs[o.id] = o
        self.mem[o.id] = OS(None, True)
        if o.size is not None and not o.size.is_const():
            pass
        return o
    def alive(self, o):
        return self.mem[o.id].alive
    def free(self, o):
        self.mem[o.id] = OS(self.mem[o.id].log, False)
    def resolve(self, p):
        """address polynomial -> (Obj, offset)"""
        found = None
        for m, c in p.t.items():
            if len(m) == 1 and ATOMS[m[0]].kind == 'base':
                if c == 1:
                    if found is not None:
                        raise Unsupported('ambiguous address %r' % p)
                    found = ATOMS[m[0]]
                else:
                    raise Unsupported('mixed address %r' % p)
        if found is None:
            return None, p
        return found.data, p - Poly.atom(found)
    # ---------- memory primitives
    def push(self, o, entry):
        kind, off, ln, payload = entry
        st = self.mem[o.id]
        if kind == 'W' and ln == ONE and st.log is not None and st.log[0] == 'W' and st.log[2] == ONE and st.log[1] == off:
            # the same character again; where the text itself is put back, nothing is left of either
            prev = st.log[4]
            if prev is not None and prev[0] == 'S' and self.must(and_(ge(off, prev[1]), lt(off - prev[1], parts_len(prev[3])))) \
                    and self.must(eq(str_byte(self, prev[3], off - prev[1], 1), payload)):
                self.mem[o.id] = OS(prev, st.alive)
                return
        self.mem[o.id] = OS((kind, off, ln, payload, st.log, next(_seq)), st.alive)
    def access(self, p, size, what):
        """resolve an address and oblige that [p, p+size) is inside a live object"""
        o, off = self.resolve(p)
        if o is None:
            # a pointer not known to be an object: null or wild
            r = self.ex.deref_hook(self, p, size, what)
            if r is not None:
                return r
            self.oblige('memory', '%s through invalid pointer' % what, FALSE)
            raise PathEnd()
        if not self.mem[o.id].alive:
            self.oblige('memory', '%s of freed object %s' % (what, o.name), FALSE)
            raise PathEnd()
        if o.size is not None:
            size = P(size)
            f = and_(ge(off, 0), le(off + size, o.size))
            if f is not TRUE:
                self.oblige('memory', '%s within %s' % (what, o.name), f)
                self.assume(f)
        if what == 'write' and o.const:
            self.oblige('memory', 'write to read-only %s' % o.name, FALSE)
        return o, off
    def load(self, p, size):
        o, off = self.access(p, size, 'read')
        return self.read(o, off, size)
    def store(self, p, size, v):
        o, off = self.access(p, size, 'write')
        self.ex.on_write(self, o, off, size, v)
        self.ex.note_write(self, o, off, C(size))
        self.push(o, ('W', off, C(size), v))
    def rd(self, p, size, signed=True):
        """spec-level read, no obligation"""
        o, off = self.resolve(p)
        if o is None:
            raise Unsupported('spec read through %r' % p)
        return self.read(o, off, size)
    def read(self, o, off, size):
        return read_log(self, o, self.mem[o.id].log, off, size)
    def bulk_copy(self, do, doff, so, soff, ln):
        self.ex.note_write(self, do, doff, ln)
        self.push(do, ('C', doff, P(ln), (so, self.mem[so.id].log, soff)))
    def fill(self, o, off, ln, byte):
        self.ex.note_write(self, o, off, ln)
        self.push(o, ('F', off, P(ln), P(byte)))
    def cstr(self, p):
        """abstract C string at p: tuple of parts, or None when unknown"""
        o, off = self.resolve(p)
        if o is None:
            return None
        return cstr_log(self, o, self.mem[o.id].log, off)
    @property
    def fr(self):
        return self.frames[-1]

_keep = []

def wrapped(p, w):
    """p modulo 2^w in canonical signed form"""
    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    l, h = bounds(p)
    if l is not None and h is not None and l >= lo and h <= hi:
        return p
    # only the residue matters
    M = 1 << w
    p = Poly({m: (c + (M >> 1)) % M - (M >> 1) for m, c in p.t.items() if c % M})
    if p.is_const():
        return C(wrap_const(p.cval(), w))
    q = app('wq', C(w), p)
    r = p - q * M
    a = ATOMS[next(iter(q.t))[0]]
    if not a.extra:
        define(q, ge(r, lo), le(r, hi))
    return r
MAKERS['wq'] = lambda w, p: -fdivp_exact(p, w)
def fdivp_exact(p, w):
    r = wrapped(p, w.cval())
    return fdivp(r - p, C(1 << w.cval()))

def wrap_const(v, w):
    v &= (1 << w) - 1
    if v >> (w - 1):
        v -= 1 << w
    return v

def rel(S, off, size, off2, size2):
    """relation of [off,off+size) to [off2,off2+size2): 'same','disj', or const displacement"""
    d = off - off2
    if d.is_const() and isinstance(size2, int):
        c = d.cval()
        if c == 0 and size == size2:
            return 'same', 0
        if c >= size2 or c + size <= 0:
            return 'disj', 0
        return 'part', c
    if isinstance(size2, int):
        g = d.gcd()
        c = d.t.get((), 0)
        if size == size2 and g % size == 0 and c % size == 0:
            if S.decide(eq(d, 0)):
                return 'same', 0
            return 'disj', 0
        # displacement modulo g can never fall within the overlap window?
        if g:
            if all((x - c) % g for x in range(-size + 1, size2)):
                return 'disj', 0
        hook = S.ex.disjoint_hook
        if hook is not None:
            r = hook(S, off, size, off2, size2)
            if r is not None:
                return r
        if S.decide(or_(ge(d, size2), le(d, -size))):
            return 'disj', 0
        if S.must(eq(d, 0)) and size == size2:
            return 'same', 0
        for x in range(-size + 1, size2):
            if g and (x - c) % g:
                continue
            if S.decide(eq(d, x)):
                return ('same', 0) if (x == 0 and size == size2) else ('part', x)
        raise PathEnd()
    raise Unsupported('rel')

def byte_of(v, j, n):
    """byte j (signed) of the n-byte integer value v"""
    if v.is_const():
        return C(wrap_const(v.cval() >> (8 * j), 8))
    if n == 1:
        return v
    if len(v.t) == 1:
        (m, c), = v.t.items()
        if c == 1 and len(m) == 1:
            a = ATOMS[m[0]]
            if a.kind == 'app' and a.data[0] == 'join%d' % n:
                return a.data[1][j]
    return app('byte%d_%d' % (j, n), v, lo=-128, hi=127)
for _j in range(16):
    for _n in range(1, 17):
        MAKERS['byte%d_%d' % (_j, _n)] = lambda v, j=_j, n=_n: byte_of(v, j, n)

def join_bytes(*bs):
    """little-endian integer with the given bytes; inverse of byte_of"""
    n = len(bs)
    if n == 1:
        return bs[0]
    if all(b.is_const() for b in bs):
        return C(wrap_const(sum((b.cval() & 255) << (8 * j) for j, b in enumerate(bs)), 8 * n))
    src = None
    for j, b in enumerate(bs):
        if len(b.t) != 1:
            break
        (m, c), = b.t.items()
        if c != 1 or len(m) != 1:
            break
        a = ATOMS[m[0]]
        if a.kind != 'app' or a.data[0] != 'byte%d_%d' % (j, n):
            break
        if src is None:
            src = a.data[1][0]
        elif src != a.data[1][0]:
            break
    else:
        return src
    return app('join%d' % n, *bs, lo=-(1 << (8 * n - 1)), hi=(1 << (8 * n - 1)) - 1)
for _n in range(1, 17):
    MAKERS['join%d' % _n] = join_bytes

def from_bytes(S, bs):
    if any(b is None for b in bs):
        return None
    return join_bytes(*bs)

def read_log(S, o, log, off, size):
    S.ex.reads += 1
    while log is not None:
        kind, off2, ln, payload, prev, seq = log
        if kind == 'W':
            n2 = ln.cval()
            r, c = rel(S, off, size, off2, n2)
            if r == 'same':
                return payload
            if r == 'part':
                if 0 <= c and c + size <= n2:
                    if size == 1:
                        return byte_of(payload, c, n2)
                    bs = [byte_of(payload, c + j, n2) for j in range(size)]
                    return from_bytes(S, bs)
                if size > 1:
                    return from_bytes(S, [read_log(S, o, log, off + j, 1) for j in range(size)])
                raise Unsupported('partial read')
        elif kind == 'R':
            r = payload.read(S, o, off, size)
            if r is not None:
                return r
        elif kind in ('C', 'F', 'H', 'S'):
            d = off - off2
            inside = and_(ge(d, 0), le(d + size, ln))
            isin = False
            if S.must(inside, nl=False):
                isin = True
            elif S.must(or_(ge(d, ln), le(d + size, 0)), nl=False):
                isin = False
            else:
                hook = S.ex.region_hook
                r = hook(S, o, off, size, off2, ln) if hook else None
                if r is not None:
                    isin = r
                elif S.decide(inside):
                    isin = True
                elif S.decide(or_(ge(d, ln), le(d + size, 0))):
                    isin = False
                else:
                    if size > 1:
                        return from_bytes(S, [read_log(S, o, log, off + j, 1) for j in range(size)])
                    raise Unsupported('partial region read')
            if isin:
                if kind == 'C':
                    so, slog, soff = payload
                    return read_log(S, so, slog, soff + d, size)
                if kind == 'F':
                    if payload.is_const():
                        b = payload.cval() & 255
                        v = 0
                        for j in range(size):
                            v |= b << (8 * j)
                        return C(wrap_const(v, 8 * size))
                    if size == 1:
                        return payload
                    raise Unsupported('symbolic fill read')
                if kind == 'H':
                    return payload(S, off, size)
                if kind == 'S':
                    return str_byte(S, payload, d, size)
        log = prev
    if o.reader is None:
        # uninitialised memory: an arbitrary but fixed value
        return app('uninit_%s_%d' % (o.name, o.id), off, C(size), lo=-(1 << (8 * size - 1)), hi=(1 << (8 * size - 1)) - 1)
    return o.reader(S, off, size)

# ------------------------------------------------------------- abstract strings
def lit(b):
    return (('lit', b),) if b else ()

def norm_parts(ps):
    out = []
    for p in ps:
        if p[0] == 'lit':
            if not p[1]:
                continue
            if out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + p[1])
                continue
        out.append(p)
    return tuple(out)

def part_len(p):
    k = p[0]
    if k == 'lit':
        return C(len(p[1]))
    if k == 'id':
        return app('strlen', p[1], lo=0, hi=1 << 30)
    if k == 'pre':           # the first p[2] characters of the text p[1]
        return p[2]
    if k == 'fmt':
        spec, v = p[1], p[2]
        mx = 20
        return app('fmtlen_' + spec, v, lo=1, hi=max(24, 8))
    raise Unsupported('part_len %r' % (p,))

def parts_len(ps):
    t = ZERO
    for p in ps:
        t = t + part_len(p)
    return t

def str_byte(S, parts, d, size):
    """byte d of the NUL-terminated abstract string"""
    if size != 1:
        raise Unsupported('multi-byte read of abstract string')
    pos = ZERO
    for p in parts:
        if p[0] == 'lit':
            L = len(p[1])
            x = d - pos
            if x.is_const():
                c = x.cval()
                if 0 <= c < L:
                    return C(wrap_const(p[1][c], 8))
            else:
                if S.decide(lt(x, L)):
                    for j in range(L):
                        if S.decide(eq(x, j)):
                            return C(wrap_const(p[1][j], 8))
            pos = pos + L
        else:
            L = part_len(p)
            if S.decide(lt(d, pos + L)):
                if p[0] == 'pre':
                    v = app('chr_id', p[1], d - pos, lo=-128, hi=127)
                else:
                    v = app('chr_%s' % p[0], *( [p[1]] + ([p[2]] if len(p) > 2 else []) + [d - pos]), lo=-128, hi=127)
                S.assume(ne(v, 0))
                nb = S.ex.nonblank_ids
                return v
            pos = pos + L
    if S.decide(eq(d, pos)):
        return ZERO
    return S.fresh('strtail', -128, 127)

def cstr_log(S, o, log, off):
    """string starting at off"""
    if log is None:
        if o.cstr is not None:
            r = o.cstr(S, off)
            if r is not None:
                return r
        return cstr_bytes(S, o, log, off)
    kind, off2, ln, payload, prev, seq = log
    if kind == 'S':
        d = off - off2
        if d.is_const() and d.cval() == 0:
            return payload
        if S.must(eq(d, 0)):
            return payload
        # suffix of the string at a part boundary
        pos = ZERO
        rest = list(payload)
        while rest:
            if (off2 + pos) == off:
                return tuple(rest)
            p = rest[0]
            if p[0] == 'lit':
                x = off - off2 - pos
                if x.is_const() and 0 < x.cval() < len(p[1]):
                    return norm_parts((('lit', p[1][x.cval():]),) + tuple(rest[1:]))
            pos = pos + part_len(p)
            rest.pop(0)
        if (off2 + pos) == off:
            return ()
        if S.must(or_(ge(off, off2 + parts_len(payload) + 1), lt(off, off2))):
            if S.must(ge(off, off2 + parts_len(payload) + 1)):
                return cstr_log(S, o, prev, off)
            # string before this one; must end before off2
            r = cstr_log(S, o, prev, off)
            if r is not None and S.must(le(off + parts_len(r) + 1, off2)):
                return r
            return None
        return None
    if kind == 'C':
        so, slog, soff = payload
        d = off - off2
        if S.must(and_(ge(d, 0), lt(d, ln))):
            r = cstr_log(S, so, slog, soff + d)
            if r is not None and S.must(le(d + parts_len(r) + 1, ln)):
                return r
            if r is None:
                return cstr_bytes(S, o, log, off)
            return None
    if kind == 'R':
        return None
    if kind == 'W' and payload == ZERO and ln == C(1) and prev is not None and prev[0] == 'C':
        # a copy of the characters, terminated here
        so, slog, soff = prev[3]
        d = off - prev[1]
        if S.must(and_(ge(d, 0), le(off2, prev[1] + prev[2]), ge(off2, off))):
            r = cstr_log(S, so, slog, soff + d)
            if r is not None and S.must(eq(parts_len(r), off2 - off)):
                return r
    if kind == 'W' and payload == ZERO and ln == C(1) and prev is not None and prev[0] == 'S' and len(prev[3]) == 1 and prev[3][0][0] == 'id':
        # a text cut short here
        if S.must(and_(eq(off, prev[1]), ge(off2, off), le(off2 - off, parts_len(prev[3])))):
            return (('pre', prev[3][0][1], off2 - off),) if off2 != off else ()
    if kind == 'W' or kind == 'F' or kind == 'C':
        # does the entry touch the string?
        r = cstr_log(S, o, prev, off) if kind != 'F' else None
        if r is not None and S.must(or_(le(off + parts_len(r) + 1, off2), ge(off, off2 + ln))):
            return r
        if kind == 'F' and S.must(or_(le(off2 + ln, off))):
            return cstr_log(S, o, prev, off)
        return cstr_bytes(S, o, log, off)
    if kind == 'H':
        if S.must(or_(ge(off, off2 + ln))):
            return cstr_log(S, o, prev, off)
        f = getattr(payload, 'cstr', None)
        if f is not None:
            return f(S, off)
        return cstr_bytes(S, o, log, off)
    return None

def cstr_bytes(S, o, log, off):
    """concrete NUL-terminated bytes"""
    out = bytearray()
    for j in range(64):
        try:
            if o.size is not None and (off + j - o.size).is_const() and (off + j - o.size).cval() >= 0:
                return None
            v = read_log(S, o, log, off + j, 1)
        except Unsupported:
            return None
        if v is None or not v.is_const():
            return None
        if v.cval() == 0:
            return lit(bytes(out))
        out.append(v.cval() & 255)
    return None

class Obligation:
    __slots__ = ('kind', 'name', 'func', 'line', 'status', 'model', 'pcs', 'goal', 'secs', 'trace')
    def __init__(self, kind, name, func, line, status, model=None, goal=None, trace=()):
        self.kind = kind; self.name = name; self.func = func; self.line = line
        self.status = status; self.model = model; self.goal = goal; self.trace = trace
    def key(self):
        return '%s:%s:%s' % (self.func, self.kind, self.name)

# powers of two and exclusive or: facts relating the terms met so far
POWS, XORS = [], []
POWK = (8, 16, 20, 30)
def pow2(n):
    n = P(n)
    if n.is_const():
        return C(1 << max(n.cval(), 0))
    v = app('pow2', n, lo=0)
    a = ATOMS[next(iter(v.t))[0]]
    if not a.extra:
        q = app('pow2', n - 1, lo=0) if not (n - 1).is_const() else pow2(n - 1)
        define(v, imp(ge(n, 0), and_(ge(v, 1), ge(v, n + 1))), imp(ge(n, 1), eq(v, q * 2)), *[imp(ge(n, k), ge(v, 1 << k)) for k in POWK], *[imp(and_(ge(n, 0), le(n, k)), le(v, 1 << k)) for k in POWK])
        for x in XORS[-24:]:
            a.extra = a.extra + (xor_below(x, v),)
        POWS.append(v)
    return v
MAKERS['pow2'] = pow2
def xor_below(x, p):
    a, b, v, w = x
    return imp(and_(ge(a, 0), ge(b, 0), lt(a, p), lt(b, p)), lt(v, p))
def xor_(a, b, w=32):
    a, b = P(a), P(b)
    w = w.cval() if isinstance(w, Poly) else w
    if a.is_const() and b.is_const():
        return C(wrap_const(a.cval() ^ b.cval(), w))
    if a.is_const() and a.cval() == 0:
        return b
    if b.is_const() and b.cval() == 0:
        return a
    key = lambda x: (min(x.atoms(), default=1 << 60), len(x.t))
    if key(b) < key(a):
        a, b = b, a
    v = app('xor', a, b, C(w), lo=-(1 << (w - 1)), hi=(1 << (w - 1)) - 1)
    x = ATOMS[next(iter(v.t))[0]]
    if not x.extra:
        define(v, imp(and_(ge(a, 0), ge(b, 0)), ge(v, 0)), imp(eq(v, a), eq(b, 0)), imp(eq(b, 0), eq(v, a)), imp(eq(v, b), eq(a, 0)), imp(eq(a, 0), eq(v, b)))
        me = (a, b, v, w)
        for p in POWS[-24:]:
            x.extra = x.extra + (xor_below(me, p),)
        for o in XORS[-24:]:
            if o[0] == a and o[3] == w:
                x.extra = x.extra + (imp(eq(v, o[1]), eq(o[2], b)), imp(eq(o[2], b), eq(v, o[1])))
        XORS.append(me)
    return v
MAKERS['xor'] = xor_

class Exec:
    def __init__(self, prog, contracts=None, models=None, deadline=None):
        self.prog = prog
        self.contracts = contracts or {}
        self.models = models or {}
        self.solver = Solver()
        self.obls = []
        self.collect = True       # False: probe runs (loop inference)
        self.reads = 0
        self.steps = 0
        self.disjoint_hook = None
        self.region_hook = None
        self.nonblank_ids = set()
        self.deadline = deadline
        self.globals = {}
        self.target = None
        self.inline_only = set()
        self.write_hooks = []
        self.read_hooks = []
        self.loop_hints = None
        self.cut_loops = set()    # functions whose loops are never unrolled
        self.inv_hints = None
        self.no_unroll = False
        self.only_hints = False
        self.plain_forms = False    # only constant steps are closed forms; the rest is left to the invariants
        self.loop_depth = 0
        self.loop_log = []
        self.notes = []
        self.max_unroll = 80
        self.bounded = None       # bounded mode: max iterations per loop (no invariants)
        self.bounded_hit = False
        self.funcs_used = set()
        self.models_used = set()
        self.contracts_used = set()
        self.inlined = set()
        self.null_ok = None
        self.unsup = []
        self.fail_stop = True
        self.retries = 6
        self.nfail = 0
        self.max_fail = 10
        self.malloc_may_fail = False
        self.frame_old = set()   # objects that existed on entry
        self.frame_base = None
        self.case = ''

    # ---------------- obligations
    def obligation(self, S, kind, name, f):
        if not self.collect:
            S.assume(f)
            if f is FALSE:
                raise PathEnd()
            return
        fn = S.frames[-1].func.name if S.frames else (self.target or '?')
        ln = S.line
        if f is TRUE:
            self.obls.append(Obligation(kind, name, fn, ln, 'ok'))
            STATS.quick += 1
            return
        if id(f) in S.known:
            self.obls.append(Obligation(kind, name, fn, ln, 'ok'))
            return
        r, m = self.solver.valid(S.pcs, f)
        if r is None and self.retries > 0:
            # undecided within the short limit: once more with a generous one
            self.retries -= 1
            self.solver.patient(True)
            r, m = self.solver.valid(S.pcs, f)
            self.solver.patient(False)
        if r is not True and self.solver.absurd(S.pcs):
            # the path itself cannot be taken
            r = True
        if r is not True and self.same_sums(S, f):
            r = True
        if r is True:
            self.retries = max(self.retries, 4)
            self.obls.append(Obligation(kind, name, fn, ln, 'ok'))
            S.known.add(id(f)); _keep.append(f)
        else:
            st = 'fail' if r is False else 'unknown'
            self.obls.append(Obligation(kind, name, fn, ln, st, m, f, S.trace))
            self.nfail += 1
            if self.nfail >= self.max_fail:
                raise Budget('stopped after %d failed obligations' % self.nfail)
        S.assume(f)
        if f is FALSE:
            raise PathEnd()

    def same_sums(self, S, f):
        """does f follow once sums over the same range whose terms agree one by one are known to be equal?"""
        sums = [ATOMS[i] for i in fatoms(f) if ATOMS[i].kind == 'app' and ATOMS[i].data[0] == 'sum']
        if not 2 <= len(sums) <= 6:
            return False
        T = None
        for x in range(len(sums)):
            for y in range(x):
                (b1, n1), (b2, n2) = sums[x].data[1], sums[y].data[1]
                if b1 == b2 or not (n1 == n2 or S.must(eq(n1, n2))):
                    continue
                Q = S.copy()
                k = Q.fresh('k', 0, None)
                Q.assume(lt(k, n1))
                if self.solver.valid(Q.pcs, eq(subst(b1, {PLACE.id: k}), subst(b2, {PLACE.id: k})))[0] is True:
                    T = T or S.copy()
                    T.assume(eq(Poly.atom(sums[x]), Poly.atom(sums[y])))
        return T is not None and self.solver.valid(T.pcs, f)[0] is True

    def record(self, kind, name, S, status, model=None):
        if self.collect:
            self.obls.append(Obligation(kind, name, S.frames[-1].func.name, S.line, status, model, None, S.trace))
    def explore(self, S, fn):
        """all outcomes of a function that may need case splits"""
        work = [S]
        out = []
        while work:
            st = work.pop()
            snap = st.copy()
            try:
                r = fn(st)
                out.append((st, r))
            except Fork as f:
                work.extend(self.split(snap, f.cond))
            except PathEnd:
                pass
            except Unsupported:
                # a place no execution reaches says nothing
                if self.solver.feasible(st.pcs, TRUE):
                    raise
            if len(out) > 3000:
                raise Budget('explore')
        return out

    def on_write(self, S, o, off, size, v):
        for h in self.write_hooks:
            h(S, o, off, size, v)

    def deref_hook(self, S, p, size, what):
        return None

    # ---------------- values
    def trange(self, w):
        return -(1 << (w - 1)), (1 << (w - 1)) - 1
    def in_range(self, S, p, lo, hi):
        if p.is_const():
            return lo <= p.cval() <= hi
        f = and_(ge(p, lo), le(p, hi))
        return S.must(f)
    def wrap(self, S, p, w):
        """canonical signed value of p modulo 2^w"""
        if p.is_const():
            return C(wrap_const(p.cval(), w))
        lo, hi = self.trange(w)
        if self.in_range(S, p, lo, hi):
            return p
        return wrapped(p, w)
    def to_unsigned(self, S, p, w):
        if p.is_const():
            return C(p.cval() & ((1 << w) - 1))
        lo, hi = bounds(p)
        if lo is not None and lo >= 0:
            return p
        if S.decide(ge(p, 0)):
            return p
        return p + (1 << w)
    def from_unsigned(self, S, p, w):
        """p in [0,2^w) -> canonical signed"""
        if p.is_const():
            return C(wrap_const(p.cval(), w))
        lo, hi = bounds(p)
        if hi is not None and hi < (1 << (w - 1)):
            return p
        if S.decide(lt(p, 1 << (w - 1))):
            return p
        return p - (1 << w)
    def fdiv(self, S, p, d):
        """floor division for d > 0 (spec level): returns quotient polynomial"""
        return fdivp(p, d)

    # ---------------- operands
    def gobj(self, S, mod, name):
        """global variable object"""
        key = (mod.name, name)
        o = self.globals.get(key)
        if o is None:
            ty, init, const = mod.globals[name]
            # external declaration resolved in another module
            if init is None:
                for m2 in self.prog.mods:
                    if m2 is not mod and name in m2.globals and m2.globals[name][1] is not None:
                        o = self.gobj(S, m2, name)
                        self.globals[key] = o
                        return o
            size = mod.size(ty) if not (ty[0] == 'st' and ty[1] in mod.structs and not mod.structs[ty[1]][0]) else 8
            data = None
            if init is not None and name not in mod.mutable:
                data = const_bytes(mod, ty, init)
            def reader(S, off, size, data=data, nm=name):
                if data is not None and off.is_const():
                    c = off.cval()
                    if all(isinstance(x, int) for x in data[c:c+size]) and c + size <= len(data):
                        return C(wrap_const(int.from_bytes(bytes(data[c:c+size]), 'little'), 8 * size))
                    if size == 8 and isinstance(data[c], tuple):
                        return self.operand_g(S, mod, data[c][1])
                if data is not None and size == 1:
                    if all(isinstance(x, int) for x in data):
                        # symbolic index into a constant table
                        hit = self.table_hook(S, nm, data, off)
                        return hit
                return app('glob_' + nm, off, C(size), lo=-(1 << (8*size-1)), hi=(1 << (8*size-1)) - 1)
            o = Obj('@' + name, size, 'global', reader=reader, const=const)
            self.globals[key] = o
        if o.id not in S.mem:
            S.objs[o.id] = o
            S.mem[o.id] = OS(None, True)
        return o
    def table_hook(self, S, nm, data, off):
        n = len(data)
        v = app('tab_' + nm, off, lo=-128, hi=127)
        a = ATOMS[next(iter(v.t))[0]]
        if not a.extra:
            define(v, *[imp(eq(off, j), eq(v, wrap_const(data[j], 8))) for j in range(n)])
        return v
    def operand_g(self, S, mod, name):
        if name in mod.globals:
            return self.gobj(S, mod, name).base
        # function pointer
        return self.fnptr(S, mod, name)
    def fnptr(self, S, mod, name):
        f = self.prog.resolve(mod, name)
        key = ('fn', name if f is None else (f.module.name + ':' + name if name not in self.prog.ext or self.prog.ext[name] is not f else name))
        o = BASE_CACHE.get(key)
        if o is None:
            o = Obj('fn ' + name, 1, 'func', fn=name, fnobj=f)
            BASE_CACHE[key] = o
        if o.id not in S.mem:
            S.objs[o.id] = o
            S.mem[o.id] = OS(None, True)
        return o.base
    def val(self, S, op, ty, fr=None):
        k = op[0]
        fr = fr or S.frames[-1]
        if k == 'v':
            try:
                return fr.env[op[1]]
            except KeyError:
                raise Unsupported('undefined value %s' % op[1])
        if k == 'c':
            if ty == ('i', 1):
                return TRUE if op[1] else FALSE
            if ty[0] == 'i':
                return C(wrap_const(op[1], ty[1]))
            return C(op[1])
        if k == 'g':
            return self.operand_g(S, fr.func.module, op[1])
        if k == 'u':
            if ty == ('i', 1):
                return FALSE
            return S.fresh('undef')
        if k == 'f':
            return app('fconst_%s' % op[1])
        if k == 'z':
            return ZERO
        if k == 'gep':
            return self.gep(S, op[1], [(t, self.val(S, a, t, fr)) for t, a in op[2]], fr.func.module)
        if k == 'cast':
            v = self.val(S, op[3], op[2], fr)
            return self.cast(S, op[1], op[2], op[4], v)
        if k == 'bin':
            return self.bin(S, op[1], op[2], self.val(S, op[3], op[2], fr), self.val(S, op[4], op[2], fr), ())
        raise Unsupported('operand %r' % (op,))
    def as_int(self, v):
        if isinstance(v, F):
            if v is TRUE:
                return ONE
            if v is FALSE:
                return ZERO
            return None
        return v
    def gep(self, S, bt, args, mod):
        p = args[0][1]
        idx = args[1][1]
        p = p + idx * mod.size(bt)
        t = bt
        for ty, i in args[2:]:
            if t[0] == 'arr':
                t = t[2]
                p = p + i * mod.size(t)
            elif t[0] == 'st':
                n = i.cval()
                offs = mod.layout(t)[0]
                fl = mod.fields(t)
                p = p + offs[n]
                t = fl[n]
            else:
                raise Unsupported('gep into %r' % (t,))
        return p

    def cast(self, S, op, t1, t2, v):
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            return v
        if op == 'sext':
            if isinstance(v, F):
                return C(-1) if S.decide(v) else ZERO
            return v
        if op == 'zext':
            if isinstance(v, F):
                if v is TRUE:
                    return ONE
                if v is FALSE:
                    return ZERO
                return BoolInt(v)
            return self.to_unsigned(S, v, t1[1])
        if op == 'trunc':
            if t2[1] == 1:
                if isinstance(v, BoolPoly):
                    return v.f
                if v.is_const():
                    return TRUE if v.cval() & 1 else FALSE
                m = v - self.fdiv(S, v, 2) * 2
                return ne(m, 0)
            return self.wrap(S, v, t2[1])
        # floating point conversions are uninterpreted functions of the bit pattern
        def tn(t):
            return t[1] if t[0] == 'fp' else 'i%d' % t[1]
        if isinstance(v, F):
            v = ONE if S.decide(v) else ZERO
        lo = hi = None
        if t2[0] == 'i':
            lo, hi = self.trange(t2[1])
        return app('%s_%s_%s' % (op, tn(t1), tn(t2)), v, lo=lo, hi=hi)

    def bin(self, S, op, ty, a, b, flags):
        if op[0] == 'f' and op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return app(op + '_' + ty[1], a, b)
        if ty == ('i', 1):
            a = a if isinstance(a, F) else (TRUE if S.decide(ne(a, 0)) else FALSE)
            b = b if isinstance(b, F) else (TRUE if S.decide(ne(b, 0)) else FALSE)
            if op == 'and':
                return and_(a, b)
            if op == 'or':
                return or_(a, b)
            if op == 'xor':
                if b is TRUE:
                    return not_(a)
                if b is FALSE:
                    return a
                return or_(and_(a, not_(b)), and_(not_(a), b))
            raise Unsupported('i1 %s' % op)
        w = ty[1]
        lo, hi = self.trange(w)
        if isinstance(a, F):
            a = BoolInt(a)
        if isinstance(b, F):
            b = BoolInt(b)
        if op in ('add', 'sub', 'mul'):
            r = a + b if op == 'add' else (a - b if op == 'sub' else a * b)
            if r.is_const():
                if lo <= r.cval() <= hi:
                    return r
                if 'nsw' in flags:
                    self.obligation(S, 'overflow', 'signed %s i%d' % (op, w), FALSE)
                return C(wrap_const(r.cval(), w))
            # pointer arithmetic through integers is exact
            if w == 64 and any(len(m) == 1 and ATOMS[m[0]].kind == 'base' for m in r.t):
                return r
            if 'nsw' in flags:
                f = and_(ge(r, lo), le(r, hi))
                if f is not TRUE:
                    self.obligation(S, 'overflow', 'signed %s i%d' % (op, w), f)
                return r
            return self.wrap(S, r, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if op[0] == 'u':
                a = self.to_unsigned(S, a, w)
                b = self.to_unsigned(S, b, w)
            f = ne(b, 0)
            if f is not TRUE:
                self.obligation(S, 'division', 'divisor is not zero', f)
                S.assume(f)
            if a.is_const() and b.is_const():
                q = abs(a.cval()) // abs(b.cval())
                if (a.cval() < 0) != (b.cval() < 0):
                    q = -q
                r = a.cval() - q * b.cval()
                return C(wrap_const(q if op.endswith('div') else r, w))
            if op[0] == 's':
                sa = S.decide(ge(a, 0))
                sb = S.decide(gt(b, 0))
                q = self.fdiv(S, a if sa else -a, b if sb else -b)
                if sa != sb:
                    q = -q
            else:
                q = self.fdiv(S, a, b)
            r = q if op.endswith('div') else a - q * b
            if op[0] == 'u':
                return self.from_unsigned(S, r, w)
            return r
        if op in ('shl', 'lshr', 'ashr'):
            if op == 'shl' and not b.is_const() and a.is_const() and a.cval() > 0:
                self.obligation(S, 'overflow', 'shift amount in range', and_(ge(b, 0), le(b, w - 1)))
                v = pow2(b) * a
                self.obligation(S, 'overflow', 'shifted value in range', le(v, (1 << (w - 1)) - 1))
                return v
            if not b.is_const():
                # enumerate the shift amount
                for c in range(0, w):
                    if S.decide(eq(b, c)):
                        b = C(c)
                        break
                else:
                    self.obligation(S, 'overflow', 'shift amount in range', FALSE)
                    raise PathEnd()
            c = b.cval()
            if not 0 <= c < w:
                self.obligation(S, 'overflow', 'shift amount in range', FALSE)
                raise PathEnd()
            if op == 'shl':
                if 'nsw' in flags:
                    r = a * (1 << c)
                    f = and_(ge(r, lo), le(r, hi))
                    if f is not TRUE:
                        self.obligation(S, 'overflow', 'signed shl', f)
                    return r
                return self.wrap(S, a * (1 << c), w)
            if op == 'ashr':
                return self.fdiv(S, a, 1 << c)
            u = self.to_unsigned(S, a, w)
            return self.from_unsigned(S, self.fdiv(S, u, 1 << c), w)
        if op in ('and', 'or', 'xor'):
            if a.is_const() and b.is_const():
                x, y = a.cval(), b.cval()
                return C(wrap_const(x & y if op == 'and' else x | y if op == 'or' else x ^ y, w))
            if a.is_const():
                a, b = b, a
            if b.is_const():
                c = b.cval() & ((1 << w) - 1)
                if op == 'and':
                    if c == (1 << w) - 1:
                        return a
                    if c == 0:
                        return ZERO
                    if c & (c + 1) == 0:
                        # low mask: floor modulus is independent of the signed representation
                        return a - self.fdiv(S, a, c + 1) * (c + 1)
                if op == 'xor' and c == (1 << w) - 1:
                    return -a - 1
                if op in ('or', 'xor') and c == 0:
                    return a
                if isinstance(a, BoolPoly) and op == 'xor' and c == 1:
                    return BoolInt(not_(a.f))
            return app('%s%d' % (op, w), a, b, lo=lo, hi=hi) if not (op == 'xor') else self.xor(S, a, b, w)
        raise Unsupported(op)
    def xor(self, S, a, b, w):
        return xor_(a, b, w)

    def icmp(self, S, pred, ty, a, b):
        if isinstance(a, F) or isinstance(b, F):
            if isinstance(a, Poly):
                a = TRUE if a.cval() else FALSE
            if isinstance(b, Poly):
                b = TRUE if b.cval() else FALSE
            same = or_(and_(a, b), and_(not_(a), not_(b)))
            if b is TRUE:
                same = a
            elif b is FALSE:
                same = not_(a)
            return same if pred == 'eq' else not_(same)
        if isinstance(a, BoolPoly) and b.is_const():
            c = b.cval()
            if pred in ('eq', 'ne'):
                r = a.f if c == 1 else not_(a.f) if c == 0 else FALSE
                return r if pred == 'eq' else not_(r)
        if pred in ('eq', 'ne'):
            if ty == PTRT:
                r = self.ptr_eq(S, a, b)
            else:
                r = eq(a, b)
            return r if pred == 'eq' else not_(r)
        if pred[0] == 's':
            return {'slt': lt, 'sle': le, 'sgt': gt, 'sge': ge}[pred](a, b)
        if ty == PTRT:
            return {'ult': lt, 'ule': le, 'ugt': gt, 'uge': ge}[pred](a, b)
        # unsigned
        if pred in ('ugt', 'uge'):
            a, b = b, a
            pred = {'ugt': 'ult', 'uge': 'ule'}[pred]
        cmp = lt if pred == 'ult' else le
        la, ha = bounds(a)
        lb, hb = bounds(b)
        an = ge(a, 0)
        bn = ge(b, 0)
        if an is not TRUE and S.must(an):
            an = TRUE
        if bn is not TRUE and S.must(bn):
            bn = TRUE
        if an is TRUE and bn is TRUE:
            return cmp(a, b)
        return or_(and_(an, bn, cmp(a, b)), and_(not_(an), not_(bn), cmp(a, b)), and_(an, not_(bn)))
    def ptr_eq(self, S, a, b):
        d = a - b
        if d.is_const():
            return TRUE if d.cval() == 0 else FALSE
        try:
            oa, fa = S.resolve(a)
            ob, fb = S.resolve(b)
        except Unsupported:
            return eq(a, b)
        if oa is not None and ob is None and fb == 0:
            return FALSE
        if ob is not None and oa is None and fa == 0:
            return FALSE
        if oa is not None and ob is not None and oa is not ob:
            return FALSE
        return eq(a, b)

    # ---------------- stepping
    def run_from(self, S, ctx):
        """explore from S; results go to ctx.backs/exits/rets"""
        work = [S]
        while work:
            st = work.pop()
            try:
                outs = self.advance(st, ctx)
            except PathEnd:
                continue
            work.extend(outs)
            if len(work) + len(ctx.exits) + len(ctx.backs) > 6000:
                raise Budget('too many paths')

    def split(self, S, cond):
        """both branches of a case split, pruned"""
        out = []
        for f in (not_(cond), cond):
            if S.may(f):
                s2 = S.copy()
                s2.assume(f)
                out.append(s2)
        return out

    def advance(self, S, ctx):
        """run S until it forks, ends, or leaves ctx"""
        while True:
            if self.deadline and (self.steps & 63) == 0 and time.time() > self.deadline:
                raise Budget('time')
            self.steps += 1
            fr = S.frames[-1]
            blk = fr.func.blocks[fr.block]
            ins = blk.ins[fr.idx]
            if ins.line:
                S.line = ins.line
            op = ins.op
            try:
                if op == 'call':
                    snap = S.copy()
                    try:
                        r = self.call(S, ins, ctx)
                    except Fork as f:
                        return self.split(snap, f.cond)
                    if r is not None:
                        return r
                    continue
                if op == 'br' or op == 'switch':
                    return self.branch_ins(S, ins, ctx)
                if op == 'ret':
                    r = self.ret(S, ins, ctx)
                    if r is not None:
                        return r
                    continue
                nd = S.nd
                npcs = len(S.pcs)
                try:
                    self.simple(S, fr, ins)
                except Fork as f:
                    S.nd = nd
                    return self.split(S, f.cond)
                fr.idx += 1
            except Fork as f:
                return self.split(S, f.cond)

    def simple(self, S, fr, ins):
        op = ins.op
        if op == 'load':
            p = self.val(S, ins.args[0], PTRT)
            v = S.load(p, fr.func.module.size(ins.ty))
            if ins.ty == ('i', 1):
                v = ne(v, 0)
            for h in self.read_hooks:
                h(S, p, ins, v)
            fr.env[ins.res] = v
        elif op == 'store':
            v = self.val(S, ins.args[0], ins.ty)
            p = self.val(S, ins.args[1], PTRT)
            if isinstance(v, F):
                v = BoolInt(v)
            S.store(p, fr.func.module.size(ins.ty), v)
        elif op == 'gep':
            fr.env[ins.res] = self.gep(S, ins.ty, [(t, self.val(S, a, t)) for t, a in ins.args], fr.func.module)
        elif op == 'icmp':
            a = self.val(S, ins.args[0], ins.ty)
            b = self.val(S, ins.args[1], ins.ty)
            fr.env[ins.res] = self.icmp(S, ins.x, ins.ty, a, b)
        elif op == 'bin':
            a = self.val(S, ins.args[0], ins.ty)
            b = self.val(S, ins.args[1], ins.ty)
            fr.env[ins.res] = self.bin(S, ins.x, ins.ty, a, b, ins.flags)
        elif op == 'cast':
            o, t1 = ins.x
            fr.env[ins.res] = self.cast(S, o, t1, ins.ty, self.val(S, ins.args[0], t1))
        elif op == 'alloca':
            n = self.val(S, ins.args, ('i', 64)) if ins.args != ('c', 1) else ONE
            sz = n * fr.func.module.size(ins.ty)
            o = S.alloc('%s' % (ins.res.strip('%')), sz, 'stack')
            fr.env[ins.res] = o.base
            fr.allocas = fr.allocas + (o,)
        elif op == 'select':
            c = self.val(S, ins.args[0], ('i', 1))
            a = self.val(S, ins.args[1], ins.ty)
            b = self.val(S, ins.args[2], ins.ty)
            fr.env[ins.res] = a if S.decide(c) else b
        elif op == 'fcmp':
            a = self.val(S, ins.args[0], ins.ty)
            b = self.val(S, ins.args[1], ins.ty)
            fr.env[ins.res] = eq(app('fcmp_' + ins.x, a, b, lo=0, hi=1), 1)
        elif op == 'atomicrmw':
            if ins.x != 'xchg':
                raise Unsupported('atomicrmw ' + ins.x)
            p = self.val(S, ins.args[0], PTRT)
            v = self.val(S, ins.args[1], ins.ty)
            sz = fr.func.module.size(ins.ty)
            fr.env[ins.res] = S.load(p, sz)
            S.store(p, sz, v)
        elif op == 'freeze':
            fr.env[ins.res] = self.val(S, ins.args[0], ins.ty)
        elif op == 'fneg':
            fr.env[ins.res] = app('fneg', self.val(S, ins.args[0], ins.ty))
        elif op == 'unreachable':
            raise PathEnd()
        else:
            raise Unsupported('%s (%s)' % (op, ins.x))

    def branch_ins(self, S, ins, ctx):
        fr = S.frames[-1]
        if ins.op == 'br':
            if len(ins.x) == 1:
                return self.goto(S, ins.x[0], ctx)
            c = self.val(S, ins.args[0], ('i', 1))
            if isinstance(c, Poly):
                c = ne(c, 0)
            outs = []
            alts = [(c, ins.x[0]), (not_(c), ins.x[1])]
            if ins.x[0] == ins.x[1]:
                return self.goto(S, ins.x[0], ctx)
        else:
            v = self.val(S, ins.args[0], ins.ty)
            d, cases = ins.x
            alts = []
            rest = TRUE
            for cv, lab in cases:
                f = eq(v, wrap_const(cv, ins.ty[1]))
                alts.append((f, lab))
                rest = and_(rest, not_(f))
            alts.append((rest, d))
        feas = []
        for f, lab in alts:
            if f is FALSE:
                continue
            if f is TRUE or id(f) in S.known:
                feas = [(f, lab)]
                break
            if S.may(f):
                feas.append((f, lab))
        if len(feas) > 1 and ctx is not None:
            ctx.undecided(self, S, [l for f, l in feas])
        outs = []
        for n, (f, lab) in enumerate(feas):
            s2 = S if n == len(feas) - 1 else S.copy()
            s2.assume(f)
            if len(feas) > 1:
                s2.trace = s2.trace + ('L%d' % S.line,)
            outs.extend(self.goto(s2, lab, ctx))
        return outs

    def goto(self, S, lab, ctx):
        fr = S.frames[-1]
        src = fr.block
        f = fr.func
        depth = len(S.frames)
        blk = f.blocks[lab]
        # phis
        if blk.phis:
            vals = []
            for ph in blk.phis:
                for b, op in ph.args:
                    if b == src:
                        vals.append((ph.res, self.val(S, op, ph.ty)))
                        break
                else:
                    raise Unsupported('phi')
            for r, v in vals:
                fr.env[r] = v
        fr.prev = src
        fr.block = lab
        fr.idx = 0
        return self.arrive(S, lab, src, ctx)

    def arrive(self, S, lab, src, ctx):
        fr = S.frames[-1]
        f = fr.func
        depth = len(S.frames)
        if ctx is not None and depth == ctx.depth and ctx.loop is not None:
            if lab == ctx.header:
                ctx.backs.append(S)
                return []
            if lab not in ctx.loop:
                ctx.exits.append(S)
                return []
        if lab in f.loops and src not in f.loops[lab]:
            from .loops import do_loop
            return do_loop(self, S, lab, ctx)
        return [S]

    def ret(self, S, ins, ctx):
        fr = S.frames[-1]
        v = None
        if ins.args:
            v = self.val(S, ins.args[0], ins.ty)
        depth = len(S.frames)
        for o in fr.allocas:
            S.free(o)
        if depth == ctx.depth and ctx.top:
            S.ret = v
            S.frames.pop()
            S.frames.append(fr)   # keep frame for reporting
            ctx.rets.append(S)
            return []
        if depth == ctx.depth:
            raise Unsupported('return inside loop body')
        S.frames.pop()
        caller = S.frames[-1]
        if fr.ret_to is not None:
            caller.env[fr.ret_to] = v
        caller.idx += 1
        return None

    def call(self, S, ins, ctx):
        fr = S.frames[-1]
        callee = ins.x
        mod = fr.func.module
        if callee[0] == 'g':
            name = callee[1]
            fobj = self.prog.resolve(mod, name)
        else:
            p = self.val(S, callee, PTRT)
            o, off = S.resolve(p)
            if o is None or o.kind != 'func':
                hk = self.models.get('#indirect')
                if hk is not None:
                    args = [self.val(S, a, t) for t, a in ins.args]
                    r = hk(self, S, p, args)
                    if ins.res is not None:
                        fr.env[ins.res] = r
                    fr.idx += 1
                    return None
                raise Unsupported('indirect call')
            name = o.info['fn']
            fobj = o.info['fnobj']
        if name.startswith('llvm.'):
            base = name.split('.')[1]
            if base in ('dbg', 'lifetime', 'stackrestore', 'va_start', 'va_end', 'assume'):
                fr.idx += 1
                return None
            if base == 'stacksave':
                fr.env[ins.res] = ZERO
                fr.idx += 1
                return None
            if base in ('memcpy', 'memmove', 'memset'):
                name = base
            else:
                name = 'llvm.' + base
            fobj = None
        args = []
        for t, a in ins.args:
            v = self.val(S, a, t) if a is not None else None
            args.append(v)
        c = self.contracts.get(name)
        if c is not None and name not in self.inline_only and (name != self.target or len(S.frames) > 1 or True) and not (name == self.target and not c.recursive):
            self.contracts_used.add(name)
            r = c.apply(self, S, args)
            self.setres(S, ins, r)
            fr.idx += 1
            return None
        m = self.models.get(name)
        if m is not None:
            self.models_used.add(name)
            r = m(self, S, args)
            self.setres(S, ins, r)
            fr.idx += 1
            return None
        if fobj is not None:
            if len(S.frames) > 12 or sum(1 for x in S.frames if x.func is fobj) > 0:
                raise Unsupported('recursive call of %s' % name)
            self.inlined.add(name)
            nf = Frame(fobj)
            nf.ret_to = ins.res
            for (ty, pn, bv), v in zip(fobj.params, args):
                nf.env[pn] = v
            S.frames.append(nf)
            return None
        raise Unsupported('call of external function %s' % name)
    def setres(self, S, ins, r):
        if ins.res is not None:
            fr = S.frames[-1]
            if r is None:
                r = S.fresh('ret')
            if ins.ty[0] == 'i' and ins.ty[1] == 1 and isinstance(r, Poly):
                r = ne(r, 0)
            fr.env[ins.res] = r

PTRT = ir.PTR

class BoolPoly(Poly):
    __slots__ = ('f',)

_bp = {}
BOOLINT[0] = lambda f: BoolInt(f)
def BoolInt(f):
    """0/1 integer carrying its formula"""
    if f is TRUE:
        return ONE
    if f is FALSE:
        return ZERO
    b = _bp.get(id(f))
    if b is None:
        a = new_atom('b%d' % len(_bp), 0, 1, kind='bool', data=f)
        b = BoolPoly({(a.id,): 1})
        b.f = f
        _bp[id(f)] = b
        _keep.append(f)
    return b

class Ctx:
    def __init__(self, depth, loop=None, header=None, top=False, latches=()):
        self.depth = depth
        self.loop = loop
        self.header = header
        self.top = top
        self.backs = []
        self.exits = []
        self.rets = []
        self.strict = False
        self.latches = latches
        self.parent = None
    def undecided(self, ex, S, labs):
        """an undecided branch; in strict (unrolling) mode the governing test must be decided"""
        if not self.strict or len(S.frames) != self.depth or self.loop is None:
            return
        b = S.frames[-1].block
        if b == self.header or b in self.latches:
            if any(l not in self.loop for l in labs):
                raise NeedInv('undecided loop test')

def const_bytes(mod, ty, init):
    k = init[0]
    n = mod.size(ty)
    if k == 'z':
        return [0] * n
    if k == 's':
        return list(init[1])
    if k == 'c':
        return list((init[1] & ((1 << (8 * n)) - 1)).to_bytes(n, 'little'))
    if k == 'g':
        return [('g', init[1])] + [None] * 7
    if k == 'agg':
        if ty[0] == 'arr':
            out = []
            for t, v in init[1]:
                out += const_bytes(mod, t, v)
            return out
        offs, sz, al = mod.layout(ty)
        out = [0] * sz
        for (t, v), o in zip(init[1], offs):
            b = const_bytes(mod, t, v)
            out[o:o + len(b)] = b
        return out
    return [None] * n
