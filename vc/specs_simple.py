"""P03: the allocating read."""
from .term import *
from .exec import *
from .contract import *
from .world import *
from .specs_array import A_, ArrayInit, Itemsize, Normalize, norm_bytes, width, BIG
from .specs_seek import RAISE, blk, Seek
from .specs_record import failing

class ReadSimple(Contract):
    """big_block_read_simple: min(requested, remaining) rows in a fresh array, read from the row asked for"""
    name = 'big_block_read_simple'
    CASES = {'type of the block': (b'<f8', None), 'type given': (b'<i4', b'f8'), 'block of another type': (b'>i2', None)}
    def cases(self):
        return list(self.CASES)
    def uses(self):
        return {'big_block_seek': Seek(), 'big_array_init': ArrayInit(), 'big_file_dtype_itemsize': Itemsize(), '_dtype_normalize': Normalize()}
    def models(self):
        def m_read(ex, S, a):
            """decided as Read"""
            bb, ptr, arr = a
            S.require('the block asked for', eq(bb, self.b.p))
            S.require('read once', eq(S.ghost['reads'], 0))
            S.require('an array of rows of members', eq(get(S, arr, 'BigArray', 'ndim'), 2))
            n, m = S.rd(A_(arr, 'dims'), 8), S.rd(A_(arr, 'dims') + 8, 8)
            S.require('as many members as the block has', eq(m, self.b.nmemb))
            S.require('the rows asked for', eq(get(S, ptr, 'BigBlockPtr', 'aoffset'), self.first(S)))
            S.ghost['rows'] = n
            S.ghost['array'] = arr
            S.ghost['reads'] = S.ghost['reads'] + 1
            o, off = S.resolve(get(S, arr, 'BigArray', 'data'))
            w = width(self.want)
            if S.decide(gt(n * m, 0)):
                S.require('the array is in memory of its own', TRUE if o is not None and S.alive(o) and o.kind == 'heap' and o.id not in S.ex.frame_old else FALSE)
                S.require('there is room for the rows', and_(eq(off, 0), le(n * m * w, o.size)))
            if failing(S, 'read_fails'):
                return C(-1)
            return ZERO
        return dict(RAISE, big_block_read=m_read)
    def first(self, S):
        return ite(lt(self.start, 0), self.start + self.b.size, self.start)
    def setup(self, ex, S, case):
        bt, dt = self.CASES[case]
        b = self.b = Block(S, dtype=bt)
        self.want = norm_bytes(dt or bt).rstrip(b'\0')
        arr = obj(S, 'array', sizeof('BigArray'))
        d = ZERO
        if dt:
            do = obj(S, 'dtype', len(dt) + 1, const=True)
            puts(S, do.base, dt + b'\0')
            d = do.base
        S.ghost['reads'] = ZERO
        S.ghost['rows'] = S.ghost['array'] = None
        GHOST_FREE.update(('reads', 'rows', 'array'))
        self.start = var('start', -(1 << 60), 1 << 60)
        self.size = var('rows_wanted', 0, MAXROWS)
        return [b.p, self.start, self.size, arr.base, d]
    def spec(self, S, args):
        bb, start, size, arr, dt = args
        b = blk(S, bb)
        S.require('the rows fit the memory', le(size * b.nmemb, 1 << 58))
        inside = and_(ge(self.first(S), 0), le(self.first(S), b.size))
        e = Effect()
        bad = Effect(ret=C(-1))
        bad.ghosts['err'] = ONE
        bad.allow.append((arr, C(sizeof('BigArray'))))
        if not S.decide(inside):
            bad.check = lambda base, R, mp: [('a refused request reads nothing', lambda S: eq(S.ghost['reads'], 0))]
            e.alts = [('refused', lambda r: eq(r, -1), bad)]
            return e
        rest = b.size - self.first(S)
        n = size if S.decide(le(size, rest)) else rest
        good = Effect(ret=ZERO)
        good.leak_ok = True
        good.allow.append((arr, C(sizeof('BigArray'))))
        good.ghosts['fault'] = ZERO
        bad.ghosts['fault'] = ONE
        S.assume(le(n * b.nmemb, 1 << 58))
        def own(S):
            o, off = S.resolve(get(S, arr, 'BigArray', 'data'))
            return TRUE if o is not None and S.alive(o) and o.kind == 'heap' and o.id not in S.ex.frame_old and off == 0 else FALSE
        def kept(base, R):
            m = sum(1 for oid, os in R.mem.items() if oid not in base.mem and os.alive and R.objs[oid].kind in ('heap', 'file'))
            return ('nothing but the rows is kept', lambda S: TRUE if m <= 1 else FALSE)
        def ok(base, R, mp):
            out = [('the rows are read once', lambda S: eq(S.ghost['reads'], 1)), ('as many rows as asked for and there are', lambda S: eq(S.ghost['rows'], n)),
                   ('into the array', lambda S: eq(S.ghost['array'], arr)), ('memory of its own', own),
                   ('rows', lambda S: eq(S.rd(A_(arr, 'dims'), 8), n)), ('members', lambda S: eq(S.rd(A_(arr, 'dims') + 8, 8), b.nmemb)),
                   ('number of elements', lambda S: eq(S.rd(A_(arr, 'size'), 8), n * b.nmemb)), kept(base, R)]
            nb = self.want + b'\0' * (8 - len(self.want))
            for j in range(8):
                out.append(('type asked for, character %d' % j, lambda S, j=j: eq(S.rd(A_(arr, 'dtype') + j, 1), wrap_const(nb[j], 8))))
            return out
        good.check = ok
        bad.check = lambda base, R, mp: [('a failed read leaves no memory in the array', lambda S: eq(S.rd(A_(arr, 'data'), 8), 0))]
        e.alts = [('read', lambda r: eq(r, 0), good), ('failed', lambda r: eq(r, -1), bad)]
        return e
