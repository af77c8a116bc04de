"""Exchanges between all processes (P24): one arbitrary process r of T is verified, like in specs_seg.

cnt(i, j): how many items rank i has for rank j.  Where a table of counts is given it holds these numbers.
"""
from .term import *
from .exec import *
from .contract import *
from .world import *
from .specs_mpi import gname
from .specs_seg import table_from, NT
from .specs_coll import Coll, require_table, require_bytes, fill, INTMAX

def cnt(i, j): return app('items', i, j, lo=0, hi=INTMAX)
def sd(j): return app('send_displ', j, lo=0, hi=INTMAX)
def rd_(j): return app('recv_displ', j, lo=0, hi=INTMAX)
X = Poly.atom(PLACE)

class Exchange(Coll):
    mods = ('mpiu',)
    def begin(self, S):
        self.start(S)
        self.to = lambda j: cnt(self.r, j)
        self.frm = lambda j: cnt(j, self.r)
        self.tt = obj(S, 'send type', 8).base
        self.rt = obj(S, 'recv type', 8).base
        self.se, self.re = var('send_extent', 0, 1 << 31), var('recv_extent', 0, 1 << 31)
        self.sbuf = obj(S, 'sendbuf', None).base
        self.rbuf = obj(S, 'recvbuf', None).base
        for f in (self.to, self.frm):
            S.assume(le(sum_(f(X), self.T), INTMAX))
    def itab(self, S, tag, fn):
        return obj(S, tag, self.T * 4, reader=table(fn, 4), const=True).base
    def extent(self, S, t):
        if t == self.tt:
            return self.se
        if t == self.rt:
            return self.re
        S.require('a type that was given', FALSE)
        raise PathEnd()
    def exchanged(self, S, a):
        """the arguments of a whole exchange"""
        sb, sc, sdis, st, rb, rc, rdis, rt, comm = a
        self.on(S, comm)
        S.require('the buffers and types given', and_(eq(sb, self.sbuf), eq(st, self.tt), eq(rb, self.rbuf), eq(rt, self.rt)))
        for nm, p, f in (('counts sent', sc, self.to), ('counts received', rc, self.frm), ('places of what is sent', sdis, self.splace), ('places of what is received', rdis, self.rplace)):
            require_table(S, nm + ' are those meant', p, f, self.T)
        S.require('there is one exchange', eq(S.ghost['count'], 0))
        S.ghost['count'] = ONE

class SparseCall(Contract):
    name = 'MPI_Alltoallv_sparse'
    def __init__(self, k):
        Contract.__init__(self)
        self.k = k
    def apply(self, ex, S, a):
        self.k.exchanged(S, a)
        self.k.step(S, 'sparse')
        return ZERO

class Alltoallv(Exchange):
    """MPIU_Alltoallv: the counts and places meant, whatever the policy, and the same way of exchange on every rank"""
    name = 'MPIU_Alltoallv'
    POLICY = ['automatic', 'dense', 'sparse']
    def cases(self):
        out = ['%s %s' % (p, ' '.join(x)) for p in self.POLICY for x in (('all',), ('none',), ('recvcnts',), ('recvcnts', 'sdispls'), ('recvcnts', 'rdispls'), ('sdispls', 'rdispls'), ('sdispls',), ('rdispls',))]
        return out + ['automatic total', 'automatic total recvcnts']
    def uses(self):
        return {'MPI_Alltoallv_sparse': SparseCall(self)}
    def models(self):
        def m_alltoall(ex, S, a):
            sb, sn, st, rb, rn, rt, comm = a
            self.on(S, comm)
            S.require('one number for each rank', and_(eq(sn, 1), eq(rn, 1), eq(self.width(S, st), 4), eq(self.width(S, rt), 4)))
            require_table(S, 'every rank tells what it sends', sb, self.to, self.T)
            self.step(S, 'counts')
            o, off = S.access(rb, self.T * 4, 'write')
            S.ex.note_write(S, o, off, self.T * 4)
            S.push(o, ('H', off, self.T * 4, table_from(off, self.frm, 4)))
            return ZERO
        def m_allreduce(ex, S, a):
            sb, rb, n, t, op, comm = a
            self.on(S, comm)
            w = self.width(S, t)
            o = gname(S, op)
            if o not in ('ompi_mpi_op_sum', 'ompi_mpi_op_max', 'ompi_mpi_op_min', 'ompi_mpi_op_lor'):
                raise Unsupported('reduction')
            S.require('one number', eq(n, 1))
            S.load(rb if sb.is_const() and sb.cval() == 1 else sb, w)
            k = len(S.ghost['steps'])
            v = app('agreed', C(k), lo=0, hi=NT)
            # which way the decision goes is the same on every rank
            z = S.decide(eq(v, 0))
            self.step(S, ('shared', 'agreed %d' % k, z))
            S.store(rb, w, ZERO if z else v)
            return ZERO
        def m_dense(ex, S, a):
            self.exchanged(S, a)
            self.step(S, 'dense')
            return ZERO
        return dict(self.mpi(), MPI_Alltoall=m_alltoall, MPI_Allreduce=m_allreduce, MPI_Alltoallv=m_dense)
    def setup(self, ex, S, case):
        self.begin(S)
        S.ghost['count'] = ZERO
        pol, _, given = case.partition(' ')
        self.total = given.startswith('total')
        given = given.split()
        allg = 'all' in given
        has = lambda n: allg or n in given
        self.splace = sd if has('sdispls') else lambda j: sum_(self.to(X), j)
        self.rplace = rd_ if has('rdispls') else lambda j: sum_(self.frm(X), j)
        sc = self.itab(S, 'sendcnts', self.to)
        rc = self.itab(S, 'recvcnts', self.frm) if has('recvcnts') else ZERO
        sdp = self.itab(S, 'sdispls', sd) if has('sdispls') else ZERO
        rdp = self.itab(S, 'rdispls', rd_) if has('rdispls') else ZERO
        return [self.sbuf, sc, sdp, self.tt, ZERO if self.total else self.rbuf, rc, rdp, self.rt, self.comm, C(self.POLICY.index(pol))]
    def hints(self, ex, case):
        def cand(L, Sg, c):
            n, out = L.pn, [le(L.pn, self.T)]
            for f in (self.to, self.frm):
                b = f(X)
                out += [ge(sum_(b, n), 0), le(sum_(b, n), sum_(b, self.T)), imp(lt(n, self.T), le(sum_(b, n + 1), sum_(b, self.T)))]
            return out
        ex.inv_hints = [cand]
        ex.malloc_may_fail = False
    def spec(self, S, args):
        if self.total:
            e = Effect(ret=sum_(self.frm(X), self.T))
            want = ZERO
        else:
            e = Effect(ret=ZERO)
            want = ONE
        def check(base, R, mp):
            return self.collective(base, R, mp) + [('there is one exchange' if want.cval() else 'nothing is exchanged without a buffer', lambda S: eq(R.ghost['count'], want))]
        e.check = check
        return e

class Sparse(Exchange):
    """MPI_Alltoallv_sparse: one message for every pair of ranks with items, to and from the places given"""
    name = 'MPI_Alltoallv_sparse'
    def models(self):
        def m_extent(ex, S, a):
            S.store(a[1], 8, S.fresh('lower_bound'))
            S.store(a[2], 8, self.extent(S, a[0]))
            return ZERO
        def post(S, which, buf, n, t, peer, tag, comm, req):
            self.on(S, comm)
            send = which == 'sent'
            S.require('the peer is a rank', and_(ge(peer, 0), lt(peer, self.T)))
            S.require('the type given', eq(t, self.tt if send else self.rt))
            c = (self.to if send else self.frm)(peer)
            S.require('as many items as meant are ' + which, eq(n, c))
            S.require('a message without items is not ' + which, gt(n, 0))
            S.require('items lie where meant', eq(buf, (self.sbuf if send else self.rbuf) + (self.se * sd(peer) if send else self.re * rd_(peer))))
            if not tag.is_const() or self.tag is not None and self.tag != tag.cval():
                S.require('messages of the exchange have one tag', FALSE)
            self.tag = tag.cval()
            g = 'sent' if send else 'received'
            if S.decide(eq(peer, self.any)):
                S.require('one message for each pair', eq(S.ghost[g], 0))
                S.ghost[g] = ONE
            # no two messages of a kind have the same peer (above), so there are no more than ranks
            q = S.ghost['posted_' + g]
            S.ghost['posted_' + g] = q + 1
            S.assume(and_(ge(q, 0), le(q + 1, self.T)))
            o, off = S.access(req, C(8), 'write')
            S.require('a request of its own', and_(eq(off, (S.ghost['posted_sent'] + S.ghost['posted_received'] - 1) * 8)))
            self.reqs = o
            S.require('nothing is posted after the wait', eq(S.ghost['waited'], 0))
        def m_irecv(ex, S, a):
            buf, n, t, peer, tag, comm, req = a
            post(S, 'received', buf, n, t, peer, tag, comm, req)
            return ZERO
        def m_isend(ex, S, a):
            buf, n, t, peer, tag, comm, req = a
            post(S, 'sent', buf, n, t, peer, tag, comm, req)
            return ZERO
        def m_waitall(ex, S, a):
            n, reqs, st = a
            S.require('every message is waited for', eq(n, S.ghost['posted_sent'] + S.ghost['posted_received']))
            o, off = S.access(reqs, n * 8, 'write')
            S.require('every message is waited for', eq(off, 0))
            S.ghost['waited'] = S.ghost['waited'] + 1
            return ZERO
        def m_barrier(ex, S, a):
            self.on(S, a[0])
            self.step(S, 'barrier')
            return ZERO
        return dict(self.mpi(), MPI_Type_get_extent=m_extent, MPI_Irecv=m_irecv, MPI_Isend=m_isend, MPI_Waitall=m_waitall, MPI_Barrier=m_barrier)
    def setup(self, ex, S, case):
        self.begin(S)
        self.tag = None
        self.any = var('any_rank', 0, NT)
        S.assume(lt(self.any, self.T))
        for g in ('sent', 'received', 'posted_sent', 'posted_received', 'waited'):
            S.ghost[g] = ZERO
            GHOST_FREE.add(g)
        def near(f):
            w = f(self.any)
            def at(j):
                v = f(j)
                if v != w and v.atoms() and not ATOMS[next(iter(v.atoms()))].extra:
                    define(v, imp(eq(j, self.any), eq(v, w)))
                return v
            return at
        self.to, self.frm = near(self.to), near(self.frm)
        self.at = [xor_(self.r, self.any), self.any]
        return [self.sbuf, self.itab(S, 'sendcnts', self.to), self.itab(S, 'sdispls', sd), self.tt, self.rbuf,
                self.itab(S, 'recvcnts', self.frm), self.itab(S, 'rdispls', rd_), self.rt, self.comm]
    def hints(self, ex, case):
        def cand(L, Sg, c):
            n, out = L.pn, [le(L.pn, 31), le(L.pn, 20)]
            has = {'sent': gt(self.to(self.any), 0), 'received': gt(self.frm(self.any), 0)}
            g = {}
            for it, a in L.items.items():
                if it[0] == 'ghost' and a is not None:
                    g[it[1]] = L.form[it] if L.form[it] is not None else Poly.atom(a)
            for k in ('sent', 'received'):
                if k in g:
                    x = g[k]
                    out += [or_(eq(x, 0), eq(x, 1))]
                    for j in self.at:
                        d = and_(gt(n, j), has[k])
                        out += [imp(d, eq(x, 1)), or_(d, eq(x, 0))]
                p = 'posted_' + k
                if p in g:
                    x = g[p]
                    out += [ge(x, 0), le(x, self.T)]
                    for it, a in L.items.items():
                        if a is not None and it[0] != 'ghost' and L.form[it] is None:
                            out += [eq(Poly.atom(a), x), eq(Poly.atom(a), Sg.ghost['posted_sent'] + Sg.ghost['posted_received'])]
            return out
        ex.inv_hints = [cand]
        ex.plain_forms = True
        ex.no_unroll = True
        ex.malloc_may_fail = False
    def spec(self, S, args):
        e = Effect(ret=ZERO)
        def check(base, R, mp):
            g = R.ghost
            return self.collective(base, R, mp) + [
                ('items of every rank are received', lambda S: eq(g['received'], ite(gt(self.frm(self.any), 0), C(1), C(0)))),
                ('items for every rank are sent', lambda S: eq(g['sent'], ite(gt(self.to(self.any), 0), C(1), C(0)))),
                ('messages are complete at the end', lambda S: eq(g['waited'], 1))]
        e.check = check
        return e

class Malloc(Contract):
    """mpiu_malloc: memory of the size asked for, from the hook the user set (the default is malloc)"""
    name = 'mpiu_malloc'
    def __init__(self, k):
        Contract.__init__(self)
        self.k = k
    def apply(self, ex, S, a):
        o = S.alloc('allocated', a[1], 'heap')
        S.require('one buffer is allocated', eq(S.ghost['allocated'], 0))
        S.ghost['allocated'] = o.base
        S.ghost['allocated_size'] = a[1]
        return o.base

class Pieces(Exchange):
    """MPIU_Gather, MPIU_Scatter: rank i has items(i) elements; the root has those of all ranks, in rank order"""
    def cases(self):
        return ['%s %s' % (b, t) for b in ('buffer', 'allocate') for t in ('total', 'no-total')]
    def uses(self):
        return {'mpiu_malloc': Malloc(self)}
    def models(self):
        def datatype(S, t):
            for h, w, c in S.ghost['types']:
                if t == h:
                    S.require('the datatype is committed', TRUE if c else FALSE)
                    return w
            n = gname(S, t)
            if n == 'ompi_mpi_byte':
                return ONE
            return C(self.width(S, t))
        def m_gather(ex, S, a):
            sb, sn, st, rb, rn, rt, root, comm = a
            self.on(S, comm)
            S.require('the root is the one given', eq(root, self.root))
            S.require('one number of each rank', and_(eq(sn, 1), eq(self.width(S, st), 4), eq(S.load(sb, 4), self.items(self.r))))
            self.step(S, 'counts')
            if S.decide(eq(self.r, self.root)):
                S.require('one number of each rank', and_(eq(rn, 1), eq(self.width(S, rt), 4)))
                o, off = S.access(rb, self.T * 4, 'write')
                S.ex.note_write(S, o, off, self.T * 4)
                S.push(o, ('H', off, self.T * 4, table_from(off, self.items, 4)))
            return ZERO
        def m_contiguous(ex, S, a):
            n, t, out = a
            h = S.alloc('datatype', C(8), 'static')
            S.ghost['types'] = S.ghost['types'] + ((h.base, n * (1 if gname(S, t) == 'ompi_mpi_byte' else self.width(S, t)), False),)
            S.store(out, 8, h.base)
            return ZERO
        def m_commit(ex, S, a):
            p = S.load(a[0], 8)
            S.ghost['types'] = tuple((h, w, c or h == p) for h, w, c in S.ghost['types'])
            return ZERO
        def m_free(ex, S, a):
            p = S.load(a[0], 8)
            S.require('the datatype is not released', TRUE if any(h == p for h, w, c in S.ghost['types']) else FALSE)
            S.ghost['types'] = tuple(x for x in S.ghost['types'] if x[0] != p)
            return ZERO
        def joined(S, counts, displs):
            require_table(S, 'the count of every rank is that of its items', counts, self.items, self.T)
            require_table(S, 'the items of every rank follow those before it', displs, lambda k: sum_(self.items(X), k), self.T)
        def room(S, p, n, mine, what):
            """p is the buffer given or the one allocated, with room for n elements"""
            if self.given:
                S.require(what, eq(p, self.buf))
            else:
                S.require(what, eq(p, S.ghost['allocated']))
                S.require('the buffer allocated has room', ge(S.ghost['allocated_size'], n * self.el))
        def moved(S):
            S.require('items are moved once', eq(S.ghost['count'], 0))
            S.ghost['count'] = ONE
        def m_gatherv(ex, S, a):
            sb, sn, st, rb, counts, displs, rt, root, comm = a
            self.on(S, comm)
            S.require('the root is the one given', eq(root, self.root))
            S.require('a rank sends its items', and_(eq(sb, self.src), eq(sn * datatype(S, st), self.items(self.r) * self.el)))
            self.step(S, 'join')
            moved(S)
            if S.decide(eq(self.r, self.root)):
                S.require('counts are in items', eq(datatype(S, rt), self.el))
                joined(S, counts, displs)
                room(S, rb, self.all(), True, 'the root receives in its buffer')
            return ZERO
        def m_scatterv(ex, S, a):
            sb, counts, displs, st, rb, rn, rt, root, comm = a
            self.on(S, comm)
            S.require('the root is the one given', eq(root, self.root))
            S.require('a rank receives its items', eq(rn * datatype(S, rt), self.items(self.r) * self.el))
            room(S, rb, self.items(self.r), True, 'a rank receives in its buffer')
            self.step(S, 'part')
            moved(S)
            if S.decide(eq(self.r, self.root)):
                S.require('counts are in items', eq(datatype(S, st), self.el))
                S.require('the root sends what was given', eq(sb, self.src))
                joined(S, counts, displs)
            return ZERO
        return dict(self.mpi(), MPI_Gather=m_gather, MPI_Type_contiguous=m_contiguous, MPI_Type_commit=m_commit, MPI_Type_free=m_free,
                    MPI_Gatherv=m_gatherv, MPI_Scatterv=m_scatterv)
    def setup(self, ex, S, case):
        self.start(S)
        b, t = case.split()
        self.given, self.wants = b == 'buffer', t == 'total'
        GHOST_FREE.update(('types', 'allocated', 'allocated_size'))
        S.ghost['types'] = ()
        S.ghost['count'] = S.ghost['allocated'] = S.ghost['allocated_size'] = ZERO
        self.items = lambda k: app('pieces', k, lo=0, hi=INTMAX)
        self.all = lambda: sum_(self.items(X), self.T)
        self.el = var('elsize', 1, INTMAX)
        self.root = var('root', 0, NT)
        S.assume(lt(self.root, self.T))
        S.assume(and_(le(self.all(), INTMAX), ge(self.all(), 0)))
        S.assume(le(self.items(self.r), self.all()))
        self.src = obj(S, 'sendbuffer', None, const=True).base
        self.buf = obj(S, 'recvbuffer', None, const=True).base if self.given else ZERO
        self.tot = obj(S, 'total', 4).base if self.wants else ZERO
        return [self.comm, self.root, self.src, self.buf, self.items(self.r), self.el, self.tot]
    def hints(self, ex, case):
        ex.malloc_may_fail = False
        def cand(L, Sg, c):
            n, b = L.pn, self.items(X)
            return [le(n, self.T), ge(sum_(b, n), 0), le(sum_(b, n), sum_(b, self.T)), imp(lt(n, self.T), le(sum_(b, n + 1), sum_(b, self.T)))]
        ex.inv_hints = [cand]
    def spec(self, S, args):
        root = eq(self.r, self.root)
        holds = root if self.name == 'MPIU_Gather' else TRUE
        e = Effect()
        e.anyret = True
        e.leak_ok = True
        if self.wants:
            e.cells.append((self.tot, 4, ite(root, self.all(), C(0)), 'the total at the root'))
        def check(base, R, mp):
            g = R.ghost
            return self.collective(base, R, mp) + [
                ('items are moved', lambda S: eq(g['count'], 1)),
                ('the datatype is released', lambda S: FALSE if g['types'] else TRUE),
                ('the buffer is returned', lambda S: eq(R.ret, self.buf) if self.given else imp(holds, and_(eq(R.ret, g['allocated']), ne(R.ret, 0)))),
                ('nothing is allocated without need', lambda S: eq(g['allocated'], 0) if self.given else imp(ne(g['allocated'], 0), eq(R.ret, g['allocated'])))]
        e.check = check
        return e

class Gather(Pieces):
    name = 'MPIU_Gather'

class Scatter(Pieces):
    name = 'MPIU_Scatter'
