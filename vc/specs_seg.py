"""Dividing the processes of a communicator into segments and groups (P23).

Each function is verified for one arbitrary process r of T.  What the other processes contribute to a
collective step is what the same code contributes there: a contribution is required to be the value at r
of a function of the rank, and is then known to be that function everywhere.
"""
from .term import *
from .exec import *
from .exec import read_log
from .contract import *
from .world import *
from .specs_mpi import gname, TYPES, lemma

NT = 1 << 20
WIDTH = dict(TYPES, ompi_mpi_double=8)

def size(k): return app('size_of_rank', k, lo=0, hi=MAXROWS)
def size2(k): return app('size2_of_rank', k, lo=0, hi=MAXROWS)

def induct(S, name, p):
    """proved by induction; returns the instantiation"""
    k = S.fresh('k', 0, 1 << 40)
    S.oblige('lemma', name + ': base', p(ZERO))
    T = S.copy()
    T.assume(p(k))
    T.oblige('lemma', name + ': step', p(k + 1))
    def use(S, j):
        S.assume(imp(ge(j, 0), p(P(j))))
    return use

def recursive(names, step):
    """functions of a natural number, zero at zero; step(prev, now, k) relates the values at k to those at k - 1"""
    def raw(n, k):
        k = P(k)
        if k.is_const() and k.cval() <= 0:
            return ZERO
        return app(n, k)
    def mk(n):
        def f(k):
            v = raw(n, k)
            if v.is_const():
                return v
            a = ATOMS[next(iter(v.t))[0]]
            if not a.extra:
                k = P(k)
                prev = [raw(m, k - 1) for m in names]
                now = [raw(m, k) for m in names]
                define(v, imp(le(k, 0), eq(v, 0)), imp(ge(k, 1), step[n](prev, v, k - 1)))
            return v
        MAKERS[n] = f
        return f
    return [mk(n) for n in names]

class Division:
    """how ranks are given numbers: sizes are added up until a sum passes the limit, then the next number starts"""
    def __init__(self, tag, s1, s2, g, test):
        def over(p, k):
            return or_(test(p[0] + s1(k), g), test(p[1] + s2(k), g))
        def cond(c, a, b):
            return and_(imp(c, a), or_(c, b))
        self.acc, self.acc2, self.col = recursive(['acc' + tag, 'acc2' + tag, 'colour' + tag], {
            'acc' + tag: lambda p, v, k: cond(over(p, k), eq(v, 0), eq(v, p[0] + s1(k))),
            'acc2' + tag: lambda p, v, k: cond(over(p, k), eq(v, 0), eq(v, p[1] + s2(k))),
            'colour' + tag: lambda p, v, k: cond(over(p, k), eq(v, p[2] + 1), eq(v, p[2]))})
        self.s1, self.s2 = s1, s2
    def lemmas(self, S):
        c = self.col
        self.range = induct(S, 'numbers are not negative and at most the rank', lambda k: and_(ge(c(k), 0), le(c(k), k)))
        j = var('any_rank', 0, NT)
        self.mono = induct(S, 'numbers never decrease', lambda k: imp(le(j, k), le(c(j), c(k))))
        self.step = induct(S, 'numbers are contiguous from zero', lambda k: and_(eq(c(ZERO), 0), le(c(k), c(k + 1)), le(c(k + 1), c(k) + 1)))
        self.bound = induct(S, 'running sums', lambda k: and_(ge(self.acc(k), 0), le(self.acc(k), sum_(self.s1(Poly.atom(PLACE)), k)), ge(self.acc2(k), 0), le(self.acc2(k), sum_(self.s2(Poly.atom(PLACE)), k))))

class Ranks(Contract):
    mods = ('mpiu',)
    def start(self, S):
        self.T = var('NTask', 1, NT)
        self.r = var('rank', 0, NT)
        S.assume(lt(self.r, self.T))
        self.comm = obj(S, 'comm', 8).base
        S.ghost['steps'] = ()
        GHOST_FREE.add('steps')
        self.seq = None
    def step(self, S, what):
        S.ghost['steps'] = S.ghost['steps'] + (what,)
    def same_steps(self, want):
        def q(S):
            got = S.ghost['steps']
            if self.seq is None:
                self.seq = got
            return TRUE if got == self.seq and sorted(got) == sorted(want) else FALSE
        return ('every rank takes the same collective steps', q)
    def table(self, S, tag, fn):
        return obj(S, tag, self.T * 8, reader=table(fn, 8))
    def on(self, S, comm):
        S.require('the communicator given', eq(comm, self.comm))
    def width(self, S, t):
        n = gname(S, t)
        if n not in WIDTH:
            raise Unsupported('MPI type')
        return WIDTH[n]
    def mpi(self):
        def m_rank(ex, S, a):
            self.on(S, a[0])
            S.store(a[1], 4, self.r)
            return ZERO
        def m_size(ex, S, a):
            self.on(S, a[0])
            S.store(a[1], 4, self.T)
            return ZERO
        return dict(MPI_Comm_rank=m_rank, MPI_Comm_size=m_size)

class AssignColors(Ranks):
    """_MPIU_Segmenter_assign_colors: the number of this rank, or -1 when it holds nothing; how many numbers there are"""
    name = '_MPIU_Segmenter_assign_colors'
    def cases(self):
        return ['one size', 'two sizes']
    def models(self):
        return self.mpi()
    def variants(self, g, s2):
        out = []
        for n, t in (('', gt), ('_ge', ge)):
            out.append(Division(n + ('' if s2 is size2 else '_one'), size, s2, g, t))
        return out
    def setup(self, ex, S, case):
        self.start(S)
        two = case == 'two sizes'
        self.s2 = size2 if two else size
        t1 = self.table(S, 'sizes', size)
        t2 = self.table(S, 'sizes2', size2).base if two else ZERO
        for f in (size, size2):
            S.assume(le(sum_(f(Poly.atom(PLACE)), self.T), MAXROWS))
        self.g = var('limit', 0, (1 << 63) - 1)
        self.ways = self.variants(self.g, self.s2)
        n = obj(S, 'ncolor', 4)
        for w in self.ways:
            w.lemmas(S)
        return [self.g, t1.base, t2, n.base, self.comm]
    def hints(self, ex, case):
        def cand(L, Sg, c):
            n, r, out = L.pn, self.r, []
            out.append(le(n, self.T))
            for f in (size, size2):
                b = f(Poly.atom(PLACE))
                out.append(le(sum_(b, n), sum_(b, self.T)))
            for w in self.ways:
                out += [and_(ge(w.col(n), 0), le(w.col(n), n), ge(w.acc(n), 0), ge(w.acc2(n), 0), le(w.acc(n), sum_(size(Poly.atom(PLACE)), n)), le(w.acc2(n), sum_(self.s2(Poly.atom(PLACE)), n)))]
            for it, a in L.items.items():
                if a is None or L.form[it] is not None:
                    continue
                x = Poly.atom(a)
                for w in self.ways:
                    out += [eq(x, w.acc(n)), eq(x, w.acc2(n)), eq(x, w.col(n)), imp(ge(n, 1), eq(x, w.col(n - 1))), imp(gt(n, r), eq(x, w.col(r)))]
                out += [imp(le(n, r), eq(x, -1)), imp(le(n, r), eq(x, 0))]
            return out
        ex.inv_hints = [cand]
    def spec(self, S, args):
        g, s1, s2, nc, comm = args
        e = Effect()
        e.anyret = True
        e.allow.append((nc, C(4)))
        held = or_(ne(size(self.r), 0), ne(self.s2(self.r), 0))
        def check(base, R, mp):
            def goals(w):
                return [('a rank with data gets its number', lambda S: imp(held, eq(R.ret, w.col(self.r)))),
                        ('a rank without data gets none', lambda S: or_(held, eq(R.ret, -1))),
                        ('how many numbers there are', lambda S: eq(S.rd(nc, 4), w.col(self.T - 1) + 1))]
            for w in self.ways[1:]:
                if all(R.copy().must(f(R.copy())) for n, f in goals(w)):
                    return goals(w)
            return goals(self.ways[0])
        e.check = check
        return e

class CollectSizes(Ranks):
    """MPIU_Segmenter_collect_sizes: every rank's size, the sizes of the ranks before this one, and of all"""
    name = 'MPIU_Segmenter_collect_sizes'
    def models(self):
        def m_allreduce(ex, S, a):
            sb, rb, n, t, op, comm = a
            self.on(S, comm)
            S.require('one number, of eight bytes', and_(eq(n, 1), eq(self.width(S, t), 8)))
            S.require('a sum', TRUE if gname(S, op) == 'ompi_mpi_op_sum' else FALSE)
            S.require('every rank adds its own size', eq(S.load(sb, 8), size(self.r)))
            self.step(S, 'sum')
            S.store(rb, 8, sum_(size(Poly.atom(PLACE)), self.T))
            return ZERO
        def m_allgather(ex, S, a):
            sb, sn, st, rb, rn, rt, comm = a
            self.on(S, comm)
            S.require('one number, of eight bytes', and_(eq(rn, 1), eq(self.width(S, rt), 8)))
            if sb.is_const() and sb.cval() == 1:
                v = S.load(rb + self.r * 8, 8)
            else:
                S.require('one number, of eight bytes', and_(eq(sn, 1), eq(self.width(S, st), 8)))
                v = S.load(sb, 8)
            S.require('every rank hands out its own size', eq(v, size(self.r)))
            self.step(S, 'sizes')
            o, off = S.access(rb, self.T * 8, 'write')
            S.ex.note_write(S, o, off, self.T * 8)
            S.push(o, ('H', off, self.T * 8, table_from(off, size)))
            return ZERO
        return dict(self.mpi(), MPI_Allreduce=m_allreduce, MPI_Allgather=m_allgather)
    def setup(self, ex, S, case):
        self.start(S)
        S.assume(le(sum_(size(Poly.atom(PLACE)), self.T), MAXROWS))
        t = obj(S, 'sizes', self.T * 8)
        o = obj(S, 'myoffset', 8)
        return [size(self.r), t.base, o.base, self.comm]
    def spec(self, S, args):
        loc, tab, mo, comm = args
        b = size(Poly.atom(PLACE))
        e = Effect(ret=sum_(b, self.T))
        e.regions.append((tab, self.T * 8, table_from(S.resolve(tab)[1], size), 8, 'the size of every rank'))
        e.cells.append((mo, 8, sum_(b, self.r), 'where the data of this rank starts'))
        e.check = lambda base, R, mp: [self.same_steps(['sum', 'sizes'])]
        return e

def table_from(at, fn, w=8):
    def rd(S, off, n):
        if n != w:
            raise Unsupported('access of %d bytes' % n)
        return fn(fdivp(off - at, C(w)))
    return rd

class GetLoc(Ranks):
    """MPIU_GetLoc: the first rank whose value is the least (the greatest)"""
    name = 'MPIU_GetLoc'
    def cases(self):
        return ['%s of %s' % (o, t) for t in ('int', 'long') for o in ('min', 'max')]
    def val(self, k):
        h = 1 << (8 * self.w - 1)
        return app('value_of_rank', k, C(self.w), lo=-h, hi=h - 1)
    def best(self, S, m, k):
        """no rank has a better value than m"""
        return le(m, self.val(k)) if self.op == 'min' else le(self.val(k), m)
    def models(self):
        def m_extent(ex, S, a):
            S.store(a[1], 8, ZERO)
            S.store(a[2], 8, C(self.width(S, a[0])))
            return ZERO
        def m_allreduce(ex, S, a):
            sb, rb, n, t, op, comm = a
            self.on(S, comm)
            S.require('one number', eq(n, 1))
            w, o = self.width(S, t), gname(S, op)
            if S.ghost['steps'] == ():
                self.step(S, 'value')
                S.require('the reduction asked for', TRUE if o == 'ompi_mpi_op_' + self.op and w == self.w else FALSE)
                S.require('the value of this rank', eq(S.load(sb, w), self.val(self.r)))
                m = app('reduced', lo=-(1 << (8 * w - 1)), hi=(1 << (8 * w - 1)) - 1)
                wit = app('rank_of_reduced', lo=0, hi=NT)
                S.assume(and_(lt(wit, self.T), eq(self.val(wit), m)))
                for k in (self.r, self.any):
                    S.assume(self.best(S, m, k))
                S.store(rb, w, m)
            elif S.ghost['steps'] == ('value',):
                self.step(S, 'rank')
                v = S.load(sb, w)
                # the contribution as a function of the rank: its own rank where the value is the one sought, something not less than T elsewhere
                m = app('reduced')
                S.require('a minimum over ranks', TRUE if o == 'ompi_mpi_op_min' and w == 4 else FALSE)
                S.require('a rank with the value sought offers itself', imp(eq(self.val(self.r), m), eq(v, self.r)))
                S.require('any other rank offers none', or_(eq(self.val(self.r), m), ge(v, self.T)))
                res, wit = app('first_rank', lo=-(1 << 31), hi=(1 << 31) - 1), app('rank_of_reduced')
                # the least contribution: that of some rank, no more than that of any
                by = app('rank_of_first', lo=0, hi=NT)
                S.assume(and_(lt(by, self.T), imp(eq(self.val(by), m), eq(res, by)), or_(eq(self.val(by), m), ge(res, self.T))))
                for k in (self.r, self.any, wit):
                    S.assume(imp(eq(self.val(k), m), le(res, k)))
                S.store(rb, 4, res)
            else:
                S.require('two collective steps', FALSE)
            return ZERO
        return dict(self.mpi(), MPI_Type_get_extent=m_extent, MPI_Allreduce=m_allreduce)
    def setup(self, ex, S, case):
        self.start(S)
        self.op, _, t = case.split()
        self.w = {'int': 4, 'long': 8}[t]
        self.any = var('any_rank', 0, NT)
        S.assume(lt(self.any, self.T))
        b = obj(S, 'base', C(self.w), const=True)
        S.push(b, ('W', ZERO, C(self.w), self.val(self.r)))
        m = [m for m in ex.prog.mods if m.name.endswith('mp-mpiu.c')][0]
        return [b.base, ex.operand_g(S, m, 'ompi_mpi_' + t), ex.operand_g(S, m, 'ompi_mpi_op_' + self.op), self.comm]
    def spec(self, S, args):
        e = Effect()
        e.anyret = True
        def check(base, R, mp):
            return [self.same_steps(['value', 'rank']), ('the result is a rank', lambda S: and_(ge(R.ret, 0), lt(R.ret, self.T))),
                    ('no rank has a better value', lambda S: self.best(S, self.val(R.ret), self.any)),
                    ('it is the first with its value', lambda S: imp(eq(self.val(self.any), self.val(R.ret)), le(R.ret, self.any))),
                    ('every rank finds the same', lambda S: eq(R.ret, app('first_rank')))]
        e.check = check
        return e

# ------------------------------------------------------------------ the division as a whole
def segment(k): return app('segment_of_rank', k, lo=0, hi=NT)

class ColorsCall(Contract):
    """call-site form of AssignColors"""
    def __init__(self, ranks):
        Contract.__init__(self)
        self.k = ranks
    name = '_MPIU_Segmenter_assign_colors'
    def apply(self, ex, S, a):
        k = self.k
        g, s1, s2, nc, comm = a
        k.on(S, comm)
        S.require('the limit is the one given', eq(g, k.limit))
        S.require('the sizes are those given', and_(eq(s1, k.t1), eq(s2, k.t2)))
        S.store(nc, 4, k.N)
        return segment(k.r) if k.case == 'data' else C(-1)

class LocCall(Contract):
    """call-site form of GetLoc, on any communicator"""
    name = 'MPIU_GetLoc'
    def __init__(self, ranks):
        Contract.__init__(self)
        self.k = ranks
    def apply(self, ex, S, a):
        base, t, op, comm = a
        k = self.k
        c = k.which(S, comm)
        S.require('a rank offers its size', and_(eq(k.width(S, t), 8), eq(S.load(base, 8), size(k.r))))
        o = gname(S, op)
        if o not in ('ompi_mpi_op_min', 'ompi_mpi_op_max'):
            raise Unsupported('reduction')
        res = app('leader', C(c), C(o.endswith('max')), lo=0, hi=NT)
        S.assume(lt(res, k.members(S, c)))
        k.step(S, ('leader', c, o))
        S.ghost['leaders'] = S.ghost['leaders'] + ((c, o[-3:], res),)
        return res

class SegInit(Ranks):
    """MPIU_Segmenter_init: segments and groups are made of the numbers"""
    name = 'MPIU_Segmenter_init'
    def cases(self):
        return ['data', 'no data', 'data, two sizes', 'no data, two sizes']
    def uses(self):
        return {'_MPIU_Segmenter_assign_colors': ColorsCall(self), 'MPIU_GetLoc': LocCall(self)}
    # communicators: number 0 is the one given, others are made by splitting
    def which(self, S, p):
        for i, c in enumerate(S.ghost['comms']):
            if p == c[0]:
                return i
        S.require('a communicator', FALSE)
        raise PathEnd()
    def members(self, S, i):
        if i == 0:
            return self.T
        n = app('members', C(i), lo=1, hi=NT)
        S.assume(and_(ge(n, 1), le(n, self.T)))
        return n
    def here(self, S, i):
        """rank of this process in the communicator"""
        if i == 0:
            return self.r
        x = app('rank_in', C(i), lo=0, hi=NT)
        S.assume(lt(x, self.members(S, i)))
        return x
    def there(self, v, k):
        """what rank k, which holds data if and only if this one does, has for v"""
        i = self.rid
        for j in deep_atoms(v):
            a = ATOMS[j]
            if a.kind in ('app',) and a.data[0] in ('segment_of_rank', 'fdiv') or j == i or j in self.shared:
                continue
            return None
        return subst(v, {i: P(k)})
    def same(self, S, i, k):
        """is rank k in the communicator that this process got?"""
        if i == 0:
            return TRUE
        p, parent, colour, key = S.ghost['comms'][i]
        there = self.there(colour, k)
        if there is None:
            return None
        b = self.same(S, parent, k)
        return None if b is None else and_(b, eq(there, colour))
    def models(self):
        def m_rank(ex, S, a):
            S.store(a[1], 4, self.here(S, self.which(S, a[0])))
            return ZERO
        def m_size(ex, S, a):
            S.store(a[1], 4, self.members(S, self.which(S, a[0])))
            return ZERO
        def m_split(ex, S, a):
            comm, colour, key, out = a
            i = self.which(S, comm)
            S.require('a colour is not negative', ge(colour, 0))
            n = len(S.ghost['comms'])
            h = obj(S, 'comm %d' % n, 8, 'static')
            h.info['frame_free'] = True
            S.ghost['comms'] = S.ghost['comms'] + ((h.base, i, colour, key),)
            self.step(S, ('split', i))
            S.store(out, 8, h.base)
            return ZERO
        def m_allreduce(ex, S, a):
            sb, rb, n, t, op, comm = a
            i = self.which(S, comm)
            S.require('one number', eq(n, 1))
            w, o = self.width(S, t), gname(S, op)
            if o not in ('ompi_mpi_op_min', 'ompi_mpi_op_max'):
                raise Unsupported('reduction')
            v = S.load(sb, w)
            self.step(S, ('reduce', i, o))
            j = len(S.ghost['steps'])
            m, wit = app('reduced', C(j), lo=-(1 << 31), hi=(1 << 31) - 1), app('rank_of_reduced', C(j), lo=0, hi=NT)
            if self.there(v, wit) is None or self.same(S, i, wit) is None:
                raise Unsupported('contribution')
            S.assume(lt(wit, self.T))
            S.assume(and_(self.same(S, i, wit), eq(m, self.there(v, wit))))
            for f in self.numbers(wit):
                S.assume(f)
            for k in (self.r, self.any):
                x = self.there(v, k)
                S.assume(imp(self.same(S, i, k), le(m, x) if o.endswith('min') else le(x, m)))
            self.wits.append(wit)
            S.store(rb, w, m)
            return ZERO
        return dict(MPI_Comm_rank=m_rank, MPI_Comm_size=m_size, MPI_Comm_split=m_split, MPI_Allreduce=m_allreduce)
    def numbers(self, k):
        """what AssignColors proves of a rank that holds data"""
        out = []
        if self.case == 'data':
            out.append(and_(ge(segment(k), 0), lt(segment(k), self.N)))
        return out
    def setup(self, ex, S, case):
        self.case = case.split(',')[0]
        two = 'two' in case
        self.start(S)
        self.rid = next(iter(self.r.t))[0]
        self.N = var('Nsegments', 1, NT)
        self.limit = var('limit', 0, (1 << 63) - 1)
        self.G = var('Ngroup', 1, (1 << 31) - 1)
        self.any = var('any_rank', 0, NT)
        self.wits = []
        self.shared = set(next(iter(x.t))[0] for x in (self.N, self.G, self.T, self.limit))
        S.assume(and_(le(self.N, self.T), lt(self.any, self.T)))
        for k in (self.r, self.any):
            for f in self.numbers(k):
                S.assume(f)
        S.ghost['comms'] = ((self.comm, 0, ZERO, ZERO),)
        S.ghost['leaders'] = ()
        GHOST_FREE.update(('comms', 'leaders'))
        self.t1 = self.table(S, 'sizes', size).base
        self.t2 = self.table(S, 'sizes2', size2).base if two else ZERO
        sg = self.sg = obj(S, 'segmenter', sizeof('MPIU_Segmenter'))
        return [sg.base, self.t1, self.t2, self.limit, self.G, self.comm]
    def spec(self, S, args):
        sg = args[0]
        e = Effect(ret=None)
        e.allow.append((sg, C(sizeof('MPIU_Segmenter'))))
        f = lambda S, n: get(S, sg, 'MPIU_Segmenter', n)
        data = self.case == 'data'
        def check(base, R, mp):
            k = self.any
            def group(S):
                return self.which(S, f(S, 'Group'))
            def inseg(S):
                return self.which(S, f(S, 'Segment'))
            def in_group(S, k):
                v = self.same(S, group(S), k)
                return FALSE if v is None else v
            out = [('the number of segments', lambda S: eq(f(S, 'Nsegments'), self.N)),
                   ('the number of groups', lambda S: eq(f(S, 'Ngroup'), self.G))]
            def order(S, i):
                p, parent, colour, key = S.ghost['comms'][i]
                ok = TRUE if i == 0 else or_(eq(key, self.r), TRUE if key.is_const() else FALSE)
                return ok if i == 0 else and_(ok, order(S, parent))
            out.append(('ranks of a segment are in the order of the communicator', lambda S: order(S, inseg(S))))
            out.append(('ranks of a group are in the order of the communicator', lambda S: order(S, group(S))))
            def member(S, i, what):
                l = [x for x in S.ghost['leaders'] if x[0] == i and x[1] == what]
                return l
            out.append(('the leader of a segment holds the least of its data', lambda S: or_(*[eq(f(S, 'segment_leader_rank'), x[2]) for x in member(S, inseg(S), 'min')])))
            def gcolour(S):
                return S.ghost['comms'][group(S)][2]
            out.append(('a group is part of the communicator', lambda S: TRUE if group(S) != 0 and S.ghost['comms'][group(S)][1] == 0 else FALSE))
            if data:
                out.append(('a rank keeps the number of its segment', lambda S: eq(f(S, 'ThisSegment'), segment(self.r))))
                out.append(('groups of ranks with data are set apart', lambda S: and_(ge(gcolour(S), 0), lt(gcolour(S), self.G))))
                # groups own ranges of segments
                def mono(S):
                    a, b = gcolour(S), self.there(gcolour(S), k)
                    if b is None:
                        return FALSE
                    S.assume(le(segment(self.r), segment(k)))
                    S.assume(le(segment(self.r) * self.G, segment(k) * self.G))
                    return le(a, b)
                out.append(('groups follow the order of segments', mono))
                def same(S):
                    a, b = gcolour(S), self.there(gcolour(S), k)
                    if b is None:
                        return FALSE
                    S.assume(eq(segment(self.r), segment(k)))
                    return eq(a, b)
                out.append(('a segment is in one group', same))
                def share(S, way):
                    inside = and_(le(f(S, 'segment_start'), segment(k)), lt(segment(k), f(S, 'segment_end')))
                    # groups follow the order of segments (above), for the ranks at the ends of the range
                    g = lambda j: self.there(gcolour(S), j)
                    if g(k) is None:
                        return FALSE
                    for w in self.wits:
                        for x, y in ((w, k), (k, w)):
                            S.assume(imp(le(segment(x), segment(y)), le(g(x), g(y))))
                    return imp(in_group(S, k), inside) if way else imp(inside, in_group(S, k))
                out.append(('a group goes through every segment it holds', lambda S: share(S, 1)))
                out.append(('a group goes through no segment of another', lambda S: share(S, 0)))
                def seg(S, way):
                    v = self.same(S, inseg(S), k)
                    if v is None:
                        return FALSE
                    g = self.there(gcolour(S), k)
                    S.assume(imp(eq(segment(self.r), segment(k)), eq(gcolour(S), g)))
                    is_ = eq(segment(self.r), segment(k))
                    return imp(v, is_) if way else imp(is_, v)
                out.append(('the processes of a segment have its number', lambda S: seg(S, 1)))
                out.append(('the processes with the number of a segment are in it', lambda S: seg(S, 0)))
            else:
                out.append(('groups of ranks without data are set apart', lambda S: ge(gcolour(S), self.G)))
                out.append(('a rank without data goes through one segment', lambda S: and_(eq(f(S, 'segment_start'), f(S, 'ThisSegment')), eq(f(S, 'segment_end'), f(S, 'ThisSegment') + 1))))
                out.append(('a rank without data takes part in no segment with data', lambda S: and_(ge(f(S, 'ThisSegment'), self.N), ge(f(S, 'segment_start'), self.N))))
            def once(S):
                if self.seq is None:
                    self.seq = [x[0] for x in S.ghost['steps']]
                return TRUE if [x[0] for x in S.ghost['steps']] == self.seq else FALSE
            out.append(('every rank takes the same collective steps', once))
            return out
        e.check = check
        return e

class SegDestroy(Ranks):
    """MPIU_Segmenter_destroy: the three communicators are released"""
    name = 'MPIU_Segmenter_destroy'
    FIELDS = ('Group', 'Leaders', 'Segment')
    def models(self):
        def m_free(ex, S, a):
            h = S.load(a[0], 8)
            o, off = S.resolve(h)
            S.oblige('memory', 'a communicator is released once', TRUE if o is not None and S.alive(o) else FALSE)
            S.free(o)
            S.store(a[0], 8, ZERO)
            return ZERO
        return dict(MPI_Comm_free=m_free)
    def setup(self, ex, S, case):
        sg = obj(S, 'segmenter', sizeof('MPIU_Segmenter'))
        self.hs = [obj(S, n, 8) for n in self.FIELDS]
        for n, h in zip(self.FIELDS, self.hs):
            put(S, sg.base, 'MPIU_Segmenter', n, h.base)
        return [sg.base]
    def spec(self, S, args):
        e = Effect(ret=None)
        e.allow.append((args[0], C(sizeof('MPIU_Segmenter'))))
        e.frees = list(self.hs)
        return e
