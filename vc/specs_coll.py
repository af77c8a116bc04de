"""Collective transfers (P17): pieces of all processes are joined in rank order and moved by one of them.

Like the segmenter (specs_seg), each function is verified for one arbitrary process r of T.
"""
from .term import *
from .exec import *
from .contract import *
from .world import *
from .specs_mpi import gname, lemma
from .specs_seg import Ranks, table_from, induct, NT, WIDTH, recursive
from .specs_array import Itemsize, Normalize, ArrayInit, A_, I_, norm_bytes, width
from .specs_seek import SeekRel, valid_ptr, m_raise

INTMAX = (1 << 31) - 1
def rows(k): return app('rows_of_rank', k, lo=0, hi=MAXROWS)
PLACE_ = Poly.atom(PLACE)

class Coll(Ranks):
    mods = ('mpi', 'bigfile', 'mpiu')
    batch = 1
    def start(self, S):
        Ranks.start(self, S)
        GHOST_FREE.update(('codes', 'failed', 'err', 'moved', 'count', 'delivered', 'iters', 'arrays', 'converted'))
        S.ghost['codes'] = ()
        S.ghost['failed'] = ZERO
        S.ghost['err'] = ZERO
        S.ghost['moved'] = ZERO
        self.tree = {}
    def follow(self, S):
        """what a process does next is settled by what it did before and by values all processes share"""
        t = S.ghost['steps'] + ('end',)
        ok = TRUE
        for i in range(len(t)):
            w = self.tree.setdefault(t[:i], t[i])
            if w != t[i] and not (isinstance(w, tuple) and isinstance(t[i], tuple) and w[0] == t[i][0] == 'shared' and w[1] == t[i][1]):
                ok = FALSE
        return ok
    def collective(self, base, R, mp):
        return [('every rank takes the same collective steps', self.follow)]
    def share(self, S, rt, where):
        """one code for all: zero only if it is zero for every process"""
        n = len(S.ghost['codes'])
        code = app('shared_code', C(n), lo=-(1 << 31), hi=INTMAX)
        if not any(c.t for c in S.ghost['codes']):
            S.require('no failure is made up', or_(eq(rt, 0), ne(S.ghost['failed'], 0), ne(S.ghost.get('groupfailed', ZERO), 0)))
        S.assume(imp(ne(rt, 0), ne(code, 0)))
        bad = S.decide(ne(code, 0))
        S.ghost['codes'] = S.ghost['codes'] + (code if bad else ZERO,)
        self.step(S, ('shared', where, bad))
        if bad:
            S.ghost['err'] = ONE
            S.ghost['fault'] = ONE
        else:
            S.require('a failure is not passed over', eq(S.ghost['failed'], 0))
        return code if bad else ZERO

class Shared(Contract):
    """call-site form of big_file_mpi_broadcast_anyerror (P16)"""
    name = 'big_file_mpi_broadcast_anyerror'
    def __init__(self, ranks):
        Contract.__init__(self)
        self.k = ranks
    def apply(self, ex, S, a):
        rt, comm = a
        return self.k.share(S, rt, self.k.place(S, comm))

def require_bytes(S, name, ptr, want, n):
    o, off = S.access(ptr, n, 'read')
    x = S.fresh('x', 0, 1 << 62)
    T = S.copy()
    if not T.may(lt(x, n)):
        return
    T.assume(lt(x, n))
    T.require(name, eq(T.read(o, off + x, 1), want(x)))

def require_table(S, name, ptr, fn, n, w=4):
    o, off = S.access(ptr, n * w, 'read')
    k = S.fresh('k', 0, 1 << 40)
    T = S.copy()
    T.assume(lt(k, n))
    T.require(name, eq(T.read(o, off + k * w, w), fn(k)))

def fill(S, ptr, n, fn):
    o, off = S.access(ptr, n, 'write')
    S.ex.note_write(S, o, off, n)
    def rd(S2, at, m):
        if m == 1:
            return fn(at - off)
        return join_bytes(*[fn(at - off + j) for j in range(m)])
    S.push(o, ('H', off, n, rd))

class Aggregated(Coll):
    """_aggregated: one process moves the joined pieces of all"""
    name = '_aggregated'
    TYPES = [b'<f8', b'>i4', b'|S3']
    def cases(self):
        return ['%s %s' % (w, t.decode()) for t in self.TYPES for w in ('write', 'read')]
    def uses(self):
        return {'big_file_dtype_itemsize': Itemsize(), '_dtype_normalize': Normalize(), 'big_array_init': ArrayInit(),
                'big_file_mpi_broadcast_anyerror': Shared(self), 'big_block_seek_rel': SeekRel()}
    def place(self, S, comm):
        self.on(S, comm)
        return 0
    def m_iter_init(self, ex, S, a):
        it, arr = a
        io, ioff = S.resolve(it)
        if ioff != 0:
            raise Unsupported('iterator')
        f = lambda n: S.load(A_(arr, n), fs('BigArray', n))
        nd = f('ndim')
        S.access(it, C(sizeof('BigArrayIter')), 'write')
        S.ex.note_write(S, io, ioff, C(sizeof('BigArrayIter')))
        snap = (arr, f('data'), tuple(S.load(A_(arr, 'dtype') + j, 1) for j in range(8)), nd, f('size'),
                tuple(S.load(A_(arr, 'dims') + 8 * j, 8) for j in range(2)), tuple(S.load(A_(arr, 'strides') + 8 * j, 8) for j in range(2)))
        S.ghost['iters'] = dict(S.ghost['iters'], **{str(io.id): snap})
        S.push(io, ('W', C(fo('BigArrayIter', 'array')), C(8), arr))
        S.push(io, ('W', C(fo('BigArrayIter', 'dataptr')), C(8), snap[1]))
        return ZERO
    def iterator(self, S, it):
        o, off = S.resolve(it)
        s = S.ghost['iters'].get(str(o.id))
        S.require('the iterator is at the start of an array', FALSE if s is None else TRUE)
        if s is None:
            raise PathEnd()
        S.ghost['iters'] = {k: v for k, v in S.ghost['iters'].items() if k != str(o.id)}
        return s
    def packed(self, S, s, n):
        """the array described by s is rows of the block, one after the other"""
        S.require('the buffer has the type of the block', TRUE if s[2] == tuple(C(wrap_const(c, 8)) for c in norm_bytes(self.dt)) else FALSE)
        S.require('the buffer has rows of the block', and_(eq(s[3], 2), eq(s[5][0], n), eq(s[5][1], self.nm), eq(s[4], n * self.nm)))
        S.require('the buffer is packed', and_(eq(s[6][1], self.w), eq(s[6][0], self.nm * self.w)))
    def models(self):
        el = lambda: self.nm * self.w
        def m_convert(ex, S, a):
            dst, src, n = a
            d, s = self.iterator(S, dst), self.iterator(S, src)
            own, other = (s, d) if self.write else (d, s)
            S.require('the array is that of the caller', eq(own[0], self.array))
            self.packed(S, other, rows(self.r))
            S.require('every element is converted', eq(n, rows(self.r) * self.nm))
            S.access(other[1], rows(self.r) * el(), 'write' if self.write else 'read')
            if not self.write:
                require_bytes(S, 'a rank gets its own piece', other[1], lambda x: app('stored_byte', self.before() * el() + x, lo=-128, hi=127), rows(self.r) * el())
            S.ghost['converted'] = S.ghost['converted'] + 1
            if self.write:
                # whether or not it fails, the buffer may have been written
                fill(S, other[1], rows(self.r) * el(), lambda x: app('piece_byte', x, lo=-128, hi=127))
            if S.nondet('convert_fails'):
                S.ghost['failed'] = ONE
                S.ghost['err'] = ONE
                return C(-1)
            return ZERO
        def m_allgather(ex, S, a):
            sb, sn, st, rb, rn, rt, comm = a
            self.on(S, comm)
            w = self.width(S, rt)
            S.require('one number for each rank', eq(rn, 1))
            if sb.is_const() and sb.cval() == 1:
                v = S.load(rb + self.r * w, w)
            else:
                S.require('one number of each rank', and_(eq(sn, 1), eq(self.width(S, st), w)))
                v = S.load(sb, w)
            S.require('every rank hands out its own size', eq(v, rows(self.r)))
            self.step(S, 'sizes')
            o, off = S.access(rb, self.T * w, 'write')
            S.ex.note_write(S, o, off, self.T * w)
            S.push(o, ('H', off, self.T * w, table_from(off, rows, w)))
            return ZERO
        def m_allreduce(ex, S, a):
            sb, rb, n, t, op, comm = a
            self.on(S, comm)
            w = self.width(S, t)
            S.require('one number', eq(n, 1))
            S.require('a sum', TRUE if gname(S, op) == 'ompi_mpi_op_sum' else FALSE)
            v = S.load(rb if sb.is_const() and sb.cval() == 1 else sb, w)
            S.require('every rank adds its own size', eq(v, rows(self.r)))
            self.step(S, 'sum')
            S.store(rb, w, self.total())
            return ZERO
        def m_contiguous(ex, S, a):
            n, t, out = a
            h = S.alloc('datatype', C(8), 'heap')
            S.ghost['types'] = dict(S.ghost['types'], **{str(h.id): (n * (1 if gname(S, t) == 'ompi_mpi_byte' else self.width(S, t)), False)})
            S.store(out, 8, h.base)
            return ZERO
        def m_commit(ex, S, a):
            p = S.load(a[0], 8)
            k = str(S.resolve(p)[0].id)
            S.ghost['types'] = dict(S.ghost['types'], **{k: (S.ghost['types'][k][0], True)})
            return ZERO
        def m_type_free(ex, S, a):
            p = S.load(a[0], 8)
            o, off = S.resolve(p)
            S.oblige('memory', 'the datatype is not released', TRUE if str(o.id) in S.ghost['types'] and S.alive(o) else FALSE)
            S.free(o)
            return ZERO
        def row(S, n, t, what):
            """n elements of type t are rows of the block"""
            o, off = S.resolve(t)
            if o is not None and str(o.id) in S.ghost['types'] and S.alive(o):
                w, ok = S.ghost['types'][str(o.id)]
                S.require('the datatype is committed', TRUE if ok else FALSE)
            else:
                w = C(1) if gname(S, t) == 'ompi_mpi_byte' else C(self.width(S, t))
            return w
        def joined(S, counts, displs, w):
            """the pieces of the ranks lie one after the other"""
            require_table(S, 'the count of every rank is that of its rows', counts, lambda k: rows(k), self.T)
            require_table(S, 'the piece of every rank follows those before it', displs, lambda k: sum_(rows(PLACE_), k), self.T)
            S.require('counts are in rows', eq(w, el()))
        def m_gatherv(ex, S, a):
            sb, sn, st, rb, counts, displs, rt, root, comm = a
            self.on(S, comm)
            S.require('the root is the one given', eq(root, self.root))
            w = row(S, sn, st, 'sent')
            S.require('a rank sends its rows', eq(sn * w, rows(self.r) * el()))
            S.require('a rank sends what was converted', eq(S.ghost['converted'], 1))
            require_bytes(S, 'a rank sends what was converted', sb, lambda x: app('piece_byte', x, lo=-128, hi=127), rows(self.r) * el())
            self.step(S, 'join')
            if S.decide(eq(self.r, self.root)):
                joined(S, counts, displs, row(S, ZERO, rt, 'received'))
                fill(S, rb, self.total() * el(), lambda x: app('joined_byte', x, lo=-128, hi=127))
                S.ghost['joined'] = ONE
            return ZERO
        def m_scatterv(ex, S, a):
            sb, counts, displs, st, rb, rn, rt, root, comm = a
            self.on(S, comm)
            S.require('the root is the one given', eq(root, self.root))
            w = row(S, rn, rt, 'received')
            S.require('a rank receives its rows', eq(rn * w, rows(self.r) * el()))
            self.step(S, 'part')
            if S.decide(eq(self.r, self.root)):
                joined(S, counts, displs, row(S, ZERO, st, 'sent'))
                require_bytes(S, 'the root hands out what was stored', sb, lambda x: app('stored_byte', x, lo=-128, hi=127), self.total() * el())
            fill(S, rb, rows(self.r) * el(), lambda x: app('stored_byte', self.before() * el() + x, lo=-128, hi=127))
            return ZERO
        def m_action(which):
            def m(ex, S, a):
                bb, ptr, arr = a
                S.require('the transfer asked for', TRUE if which == self.write else FALSE)
                S.require('the root alone does the transfer', eq(self.r, self.root))
                S.require('there is one transfer', eq(S.ghost['moved'], 0))
                S.require('the block given', eq(bb, self.b.p))
                S.require('the rows start where the pieces of the group start', eq(get(S, ptr, 'BigBlockPtr', 'aoffset'), self.at + self.offset))
                f, ro = get(S, ptr, 'BigBlockPtr', 'fileid'), get(S, ptr, 'BigBlockPtr', 'roffset')
                S.require('the position is consistent', eq(self.b.fof(f) + ro, self.at + self.offset))
                snap = (arr, S.load(A_(arr, 'data'), 8), tuple(S.load(A_(arr, 'dtype') + j, 1) for j in range(8)), S.load(A_(arr, 'ndim'), fs('BigArray', 'ndim')), S.load(A_(arr, 'size'), 8),
                        tuple(S.load(A_(arr, 'dims') + 8 * j, 8) for j in range(2)), tuple(S.load(A_(arr, 'strides') + 8 * j, 8) for j in range(2)))
                self.packed(S, snap, self.total())
                S.access(snap[1], self.total() * el(), 'read' if which else 'write')
                for c in S.ghost['codes']:
                    S.require('nothing is transferred after a failure of any rank', eq(c, 0))
                S.require('nothing is transferred after a failure', eq(S.ghost['failed'], 0))
                S.ghost['moved'] = ONE
                if which:
                    st = S.ghost['steps']
                    S.require('every rank is known to have converted its piece', TRUE if 'join' in st and ('shared', 0, False) in st else FALSE)
                    S.require('the joined pieces are written', eq(S.ghost['joined'], 1))
                    require_bytes(S, 'the joined pieces are written', snap[1], lambda x: app('joined_byte', x, lo=-128, hi=127), self.total() * el())
                else:
                    fill(S, snap[1], self.total() * el(), lambda x: app('stored_byte', x, lo=-128, hi=127))
                po, poff = S.resolve(ptr)
                S.ex.note_write(S, po, poff, C(sizeof('BigBlockPtr')))
                S.push(po, ('H', poff, C(sizeof('BigBlockPtr')), Blob('advanced')))
                if S.nondet('transfer_fails'):
                    S.ghost['failed'] = ONE
                    S.ghost['err'] = ONE
                    return C(-1)
                return ZERO
            return m
        return dict(self.mpi(), big_array_iter_init=self.m_iter_init, _dtype_convert=m_convert, MPI_Allgather=m_allgather, MPI_Allreduce=m_allreduce,
                    MPI_Type_contiguous=m_contiguous, MPI_Type_commit=m_commit, MPI_Type_free=m_type_free, MPI_Gatherv=m_gatherv, MPI_Scatterv=m_scatterv,
                    big_block_write=m_action(True), big_block_read=m_action(False), _big_file_raise=m_raise)
    def total(self):
        return sum_(rows(PLACE_), self.T)
    def before(self):
        return sum_(rows(PLACE_), self.r)
    def setup(self, ex, S, case):
        self.start(S)
        what, t = case.split()
        self.write = what == 'write'
        self.dt = t.encode()
        self.w = width(self.dt)
        S.ghost['iters'] = {}
        S.ghost['types'] = {}
        S.ghost['converted'] = ZERO
        S.ghost['joined'] = ZERO
        GHOST_FREE.update(('types', 'joined'))
        b = self.b = Block(S, dtype=self.dt)
        self.nm = b.nmemb
        ptr = obj(S, 'ptr', sizeof('BigBlockPtr'), const=True)
        self.at, f = valid_ptr(S, b, ptr.base, 'q')
        self.offset = var('offset', 0, MAXROWS)
        self.root = var('root', 0, NT)
        S.assume(lt(self.root, self.T))
        S.assume(le(self.total(), INTMAX))
        S.assume(le(self.before(), self.total()))
        S.assume(ge(self.before(), 0))
        S.assume(le(rows(self.r), self.total()))
        S.assume(le(self.at + self.offset + self.total(), b.size))
        a = obj(S, 'array', sizeof('BigArray'), const=True)
        self.array = a.base
        mod = [m for m in ex.prog.mods if m.name.endswith('bigfile-mpi.c')][0]
        fn = ex.fnptr(S, mod, 'big_block_write' if self.write else 'big_block_read')
        return [b.p, ptr.base, self.offset, rows(self.r), a.base, fn, self.root, self.comm]
    def hints(self, ex, case):
        ex.malloc_may_fail = False
        def cand(L, Sg, c):
            n = L.pn
            b = rows(PLACE_)
            return [le(n, self.T), ge(sum_(b, n), 0), le(sum_(b, n), sum_(b, self.T))]
        ex.inv_hints = [cand]
    def spec(self, S, args):
        e = Effect()
        e.anyret = True
        def check(base, R, mp):
            g = R.ghost
            root = eq(self.r, self.root)
            return self.collective(base, R, mp) + [
                ('the joined pieces are moved when it succeeds', lambda S: imp(eq(R.ret, 0), eq(g['moved'], ite(root, C(1), C(0))))),
                ('every rank takes part with its own rows when it succeeds', lambda S: imp(eq(R.ret, 0), eq(g['converted'], 1))),
                ('a failure of any rank is reported', lambda S: imp(or_(*[ne(c, 0) for c in g['codes']]), ne(R.ret, 0))),
                ('a failure of this rank is reported', lambda S: imp(ne(g['failed'], 0), ne(R.ret, 0))),
                ('failure is the same on every rank', lambda S: eq(R.ret, g['codes'][-1]) if g['codes'] else FALSE),
                ('a failure comes with a message', lambda S: imp(ne(R.ret, 0), eq(g['err'], 1)))]
        e.check = check
        return e

# ------------------------------------------------------------------ the transfer as a whole
def segrows(k): return app('rows_in_segment', k, lo=0, hi=MAXROWS)

class Throttle(Coll):
    """_throttle_action: every segment is moved to where its pieces belong, and every position advances by all rows"""
    name = '_throttle_action'
    def cases(self):
        return ['write', 'read']
    def place(self, S, comm):
        if comm == self.comm:
            return 0
        for h, n in S.ghost['comms']:
            if comm == h:
                return n
        S.require('a communicator of this process', FALSE)
        raise PathEnd()
    def live(self, S):
        S.require('the communicators are in use', eq(S.ghost['segmenters'], 1))
    def uses(self):
        k = self
        class Share(Shared):
            def apply(self, ex, S, a):
                rt, comm = a
                where = k.place(S, comm)
                if where == 0:
                    return k.share(S, rt, 0)
                S.require('a poll of the group', TRUE if where == 'group' else FALSE)
                k.live(S)
                n = S.ghost['polls']
                S.ghost['polls'] = n + 1
                S.require('a failure is not passed over', imp(ne(S.ghost['failed'], 0), ne(rt, 0)))
                code = app('group_code', n, lo=-(1 << 31), hi=INTMAX)
                S.assume(imp(ne(rt, 0), ne(code, 0)))
                if S.decide(ne(code, 0)):
                    S.ghost['groupfailed'] = ONE
                    S.ghost['err'] = ONE
                    return code
                return ZERO
        return {'big_file_mpi_broadcast_anyerror': Share(self), 'big_block_seek_rel': SeekRel()}
    def models(self):
        def m_collect(ex, S, a):
            n, tab, mine, comm = a
            self.on(S, comm)
            S.require('a rank counts its own rows', eq(n, rows(self.r)))
            self.step(S, 'sizes')
            o, off = S.access(tab, self.T * 8, 'write')
            S.ex.note_write(S, o, off, self.T * 8)
            S.push(o, ('H', off, self.T * 8, table_from(off, rows, 8)))
            S.store(mine, 8, self.before())
            return self.total()
        def m_init(ex, S, a):
            sg, s1, s2, lim, ng, comm = a
            self.on(S, comm)
            require_table(S, 'the sizes are those of the ranks', s1, rows, self.T, 8)
            S.require('there is at least one group', ge(ng, 1))
            S.require('a limit is not negative', ge(lim, 0))
            for x in (lim, ng):
                S.require('limits are the same on every rank', FALSE if self.rid in deep_atoms(P(x)) else TRUE)
            self.step(S, 'segments')
            S.require('one division at a time', eq(S.ghost['segmenters'], 0))
            o, off = S.access(sg, C(sizeof('MPIU_Segmenter')), 'write')
            S.push(o, ('H', off, C(sizeof('MPIU_Segmenter')), Blob('segmenter')))
            f = lambda n, v: S.push(o, ('W', off + fo('MPIU_Segmenter', n), C(fs('MPIU_Segmenter', n)), v))
            f('ThisSegment', self.own); f('segment_start', self.start_); f('segment_end', self.end_)
            f('segment_leader_rank', self.leader)
            cs = []
            for n in ('Group', 'Segment'):
                h = obj(S, n, 8, 'static')
                h.info['frame_free'] = True
                f(n, h.base)
                cs.append((h.base, n.lower()))
            S.ghost['comms'] = tuple(cs)
            S.ghost['segmenters'] = ONE
            S.alloc('communicators', C(8), 'heap')
            S.ghost['segmenter'] = sg
            return None
        def m_destroy(ex, S, a):
            self.live(S)
            S.require('the division made is undone', eq(a[0], S.ghost['segmenter']))
            S.ghost['segmenters'] = ZERO
            for oid, os in list(S.mem.items()):
                if S.objs[oid].name == 'communicators' and os.alive:
                    S.free(S.objs[oid])
            return None
        def m_barrier(ex, S, a):
            w = self.place(S, a[0])
            S.require('a barrier of the group', TRUE if w == 'group' else FALSE)
            self.live(S)
            S.ghost['barriers'] = S.ghost['barriers'] + 1
            return ZERO
        def m_bcast(ex, S, a):
            buf, n, t, root, comm = a
            S.require('the processes of a segment agree where it starts', TRUE if self.place(S, comm) == 'segment' else FALSE)
            self.live(S)
            S.require('a number of eight bytes', eq(n * (1 if gname(S, t) == 'ompi_mpi_byte' else self.width(S, t)), 8))
            S.require('the first process of the segment tells', eq(root, 0))
            S.require('a process offers where its own data start', eq(S.load(buf, 8), self.before()))
            S.ghost['bcasts'] = S.ghost['bcasts'] + 1
            S.store(buf, 8, sum_(rows(PLACE_), self.first))
            return ZERO
        def m_aggregated(ex, S, a):
            bb, ptr, off, n, arr, act, root, comm = a
            S.require('the transfer is one of a segment', TRUE if self.place(S, comm) == 'segment' else FALSE)
            self.live(S)
            S.require('the block given', eq(bb, self.b.p))
            S.require('the position given', and_(eq(get(S, ptr, 'BigBlockPtr', 'aoffset'), self.at), eq(self.b.fof(get(S, ptr, 'BigBlockPtr', 'fileid')) + get(S, ptr, 'BigBlockPtr', 'roffset'), self.at)))
            S.require('the rows start where those of the first process of the segment start', eq(off, sum_(rows(PLACE_), self.first)))
            S.require('a process takes part with its own rows', and_(eq(n, rows(self.r)), eq(arr, self.array)))
            S.require('the transfer asked for', eq(act, self.fn))
            S.require('the leader of the segment does the transfer', eq(root, self.leader))
            S.require('the rows of the segment are in the block', le(self.at + off + self.segtotal, self.b.size))
            S.require('a segment is moved once', eq(S.ghost['calls'], 0))
            for c in S.ghost['codes']:
                S.require('nothing is moved when the transfer is refused', eq(c, 0))
            S.require('nothing is moved after a failure in the group', and_(eq(S.ghost['groupfailed'], 0), eq(S.ghost['failed'], 0)))
            S.ghost['calls'] = S.ghost['calls'] + 1
            code = app('segment_code', lo=-(1 << 31), hi=INTMAX)
            if S.decide(ne(code, 0)):
                S.ghost['failed'] = ONE
                S.ghost['err'] = ONE
                return code
            return ZERO
        def m_raise2(ex, S, a):
            S.ghost['err'] = ONE
            S.ghost['failed'] = ONE
            S.require('rows that are in the block are not refused', or_(gt(self.at + self.total(), self.b.size), eq(S.ghost['fault'], 1)))
            return None
        return dict(self.mpi(), MPIU_Segmenter_collect_sizes=m_collect, MPIU_Segmenter_init=m_init, MPIU_Segmenter_destroy=m_destroy,
                    MPI_Barrier=m_barrier, MPI_Bcast=m_bcast, _aggregated=m_aggregated, _big_file_raise=m_raise2)
    def total(self):
        return sum_(rows(PLACE_), self.T)
    def before(self):
        return sum_(rows(PLACE_), self.r)
    def setup(self, ex, S, case):
        self.start(S)
        GHOST_FREE.update(('polls', 'barriers', 'bcasts', 'calls', 'groupfailed', 'comms', 'segmenters', 'segmenter'))
        for g in ('polls', 'barriers', 'bcasts', 'calls', 'groupfailed', 'segmenters'):
            S.ghost[g] = ZERO
        S.ghost['comms'] = ()
        self.write = case == 'write'
        b = self.b = Block(S)
        ptr = obj(S, 'ptr', sizeof('BigBlockPtr'))
        self.ptr = ptr.base
        self.at, self.f0 = valid_ptr(S, b, ptr.base, 'q')
        a = obj(S, 'array', sizeof('BigArray'), const=True)
        self.array = a.base
        S.push(a, ('W', C(fo('BigArray', 'dims')), C(8), rows(self.r)))
        T, r = self.T, self.r
        self.rid = atom_id(r)
        S.assume(le(self.total(), MAXROWS))
        # what the segmenter provides (specs_seg)
        self.own, self.start_, self.end_ = var('ThisSegment', 0, 2 * NT), var('segment_start', 0, 2 * NT), var('segment_end', 0, 2 * NT)
        S.assume(and_(le(self.start_, self.own), lt(self.own, self.end_)))
        self.leader = var('leader', 0, NT)
        # the first process of the segment, and the rows the segment has
        self.first = var('first_of_segment', 0, NT)
        S.assume(le(self.first, r))
        self.pieces(S)
        mod = [m for m in ex.prog.mods if m.name.endswith('bigfile-mpi.c')][0]
        self.fn = ex.fnptr(S, mod, 'big_block_write' if self.write else 'big_block_read')
        return [self.comm, var('concurrency', -(1 << 31), INTMAX), b.p, ptr.base, a.base, self.fn]
    def pieces(self, S):
        """the pieces of a segment, joined in the order of its processes, are the pieces of consecutive ranks: the
        piece of a process lies as far from the first one's as the sum of the rows of the segment's processes before it"""
        T, m, f = self.T, self.r, self.first
        c = var('segment', 0, NT)
        col = lambda k: app('segment_of_rank', k, lo=-1, hi=NT)
        held = lambda k: gt(rows(k), 0)
        mine = lambda k: and_(held(k), eq(col(k), c))
        nm = 'rows_of_segment_before_' + ('w' if self.write else 'r')
        (part,) = recursive([nm], {nm: lambda p, v, k: and_(imp(mine(k), eq(v, p[0] + rows(k))), or_(mine(k), eq(v, p[0])))})
        U = S.copy()
        tot = self.total()
        last = var('a_member', 0, NT)
        for x in (f, last):
            U.assume(mine(x))
        U.assume(and_(le(f, last), lt(last, T)))
        def facts(V, k):
            # segment numbers do not decrease along the ranks with data (AssignColors); f is the first of its segment
            for x, y in ((f, k), (k, last), (k, f)):
                V.assume(imp(and_(le(x, y), held(x), held(y)), le(col(x), col(y))))
            V.assume(imp(lt(k, f), or_(eq(rows(k), 0), ne(col(k), c))))
        p1 = lambda k: imp(le(k, f), eq(part(k), 0))
        p2 = lambda k: imp(and_(le(f, k), le(k, last + 1)), eq(sum_(rows(PLACE_), k), sum_(rows(PLACE_), f) + part(k)))
        for name, p in (('nothing of the segment is before its first process', p1), ('the segment is a run of the joined data', p2)):
            k = U.fresh('k', 0, 1 << 40)
            V = U.copy()
            if p is p2:
                V.assume(p1(f))
                V.assume(imp(eq(f, 0), eq(part(f), 0)))
            V.oblige('lemma', name + ': base', p(ZERO))
            facts(V, k)
            V.assume(p(k))
            if p is p2:
                V.assume(p1(k)); V.assume(p1(k + 1))
            V.oblige('lemma', name + ': step', p(k + 1))
        # the rows of the segment are those of its run
        self.segtotal = var('segment_rows', 0, MAXROWS)
        S.assume(le(sum_(rows(PLACE_), f) + self.segtotal, tot))
    def hints(self, ex, case):
        def cand(L, Sg, c):
            n, out = L.pn, []
            own, s, e = self.own, self.start_, self.end_
            g = {}
            for it, a in L.items.items():
                if it[0] == 'ghost':
                    g[it[1]] = Poly.atom(a) if a is not None else None
            for it, a in L.items.items():
                if a is None or L.form[it] is not None:
                    continue
                x = Poly.atom(a)
                nm = it[1] if it[0] == 'ghost' else None
                if nm in ('polls', 'barriers'):
                    out.append(eq(x, n))
                elif nm == 'calls':
                    out += [imp(le(n, own - s), eq(x, 0)), le(x, 1), ge(x, 0)]
                    if g.get('groupfailed') is not None:
                        out.append(imp(and_(gt(n, own - s), eq(g['groupfailed'], 0)), eq(x, 1)))
                elif nm == 'failed':
                    out.append(or_(eq(x, 0), eq(x, 1)))
                    out.append(imp(le(n, own - s), eq(x, 0)))
                    for it2, a2 in L.items.items():
                        if a2 is not None and it2[0] != 'ghost' and L.form[it2] is None:
                            y = Poly.atom(a2)
                            out.append(imp(ne(x, 0), ne(y, 0)))
                            if g.get('groupfailed') is not None:
                                out.append(imp(ne(g['groupfailed'], 0), ne(y, 0)))
                                out.append(imp(and_(eq(x, 0), eq(g['groupfailed'], 0)), eq(y, 0)))
                elif nm == 'err':
                    for h in ('failed', 'groupfailed'):
                        if g.get(h) is not None:
                            out.append(imp(ne(g[h], 0), eq(x, 1)))
                elif nm == 'groupfailed':
                    out.append(or_(eq(x, 0), eq(x, 1)))
            return out
        ex.inv_hints = [cand]
        ex.plain_forms = True
    def spec(self, S, args):
        e = Effect()
        e.anyret = True
        ptr = self.ptr
        e.allow.append((ptr, C(sizeof('BigBlockPtr'))))
        old = [get(S, ptr, 'BigBlockPtr', n) for n in ('fileid', 'roffset', 'aoffset')]
        def check(base, R, mp):
            g = R.ghost
            now = lambda S, n: get(S, ptr, 'BigBlockPtr', n)
            over = gt(self.at + self.total(), self.b.size)
            done = and_(eq(g['barriers'], self.end_ - self.start_), eq(g['polls'], self.end_ - self.start_))
            return self.collective(base, R, mp) + [
                ('rows beyond the end of the block are refused before anything is moved', lambda S: imp(over, and_(ne(R.ret, 0), eq(g['calls'], 0), eq(g['polls'], 0)))),
                ('the rows of this rank are moved once when it succeeds', lambda S: imp(eq(R.ret, 0), and_(eq(g['calls'], 1), eq(g['failed'], 0), eq(g['groupfailed'], 0)))),
                ('the position advances by the rows of all ranks', lambda S: imp(eq(R.ret, 0), and_(eq(now(S, 'aoffset'), self.at + self.total()), eq(self.b.fof(now(S, 'fileid')) + now(S, 'roffset'), self.at + self.total())))),
                ('the position stays after a failure', lambda S: imp(ne(R.ret, 0), and_(*[eq(now(S, n), o) for n, o in zip(('fileid', 'roffset', 'aoffset'), old)]))),
                ('the processes of a group go through the same steps', lambda S: or_(done, and_(ne(g['codes'][0], 0), eq(g['barriers'], 0), eq(g['polls'], 0)))),
                ('failure is the same on every rank', lambda S: eq(R.ret, g['codes'][-1]) if g['codes'] else FALSE),
                ('a failure of this rank is reported', lambda S: imp(or_(ne(g['failed'], 0), ne(g['groupfailed'], 0)), ne(R.ret, 0))),
                ('a failure comes with a message', lambda S: imp(ne(R.ret, 0), eq(g['err'], 1)))]
        e.check = check
        return e


class MpiWrite(Contract):
    """big_block_mpi_write: the transfer with the writing action, on the arguments given"""
    name = 'big_block_mpi_write'
    mods = Coll.mods
    action = 'big_block_write'
    def models(self):
        def m(ex, S, a):
            comm, conc, bb, ptr, arr, act = a
            S.require('the arguments are passed on', and_(*[eq(x, y) for x, y in zip((bb, ptr, arr, conc, comm), self.args)]))
            S.require('the action is that of the function', eq(act, self.fn))
            S.require('there is one transfer', eq(S.ghost['count'], 0))
            S.ghost['count'] = ONE
            return self.code
        return dict(_throttle_action=m)
    def setup(self, ex, S, case):
        S.ghost['count'] = ZERO
        GHOST_FREE.add('count')
        self.code = var('outcome', -(1 << 31), INTMAX)
        mod = [m for m in ex.prog.mods if m.name.endswith('bigfile-mpi.c')][0]
        self.fn = ex.fnptr(S, mod, self.action)
        self.args = [obj(S, 'block', sizeof('BigBlock')).base, obj(S, 'ptr', sizeof('BigBlockPtr')).base, obj(S, 'array', sizeof('BigArray')).base,
                     var('concurrency', -(1 << 31), INTMAX), obj(S, 'comm', 8).base]
        return self.args
    def spec(self, S, args):
        e = Effect(ret=self.code)
        e.ghosts['count'] = ONE
        return e
class MpiRead(MpiWrite):
    name = 'big_block_mpi_read'
    action = 'big_block_read'
