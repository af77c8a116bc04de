"""Elements of arrays: where element k lies, regions of elements, and iterators over them.

The k-th element (row-major) of an array lies at data + off(k).  For a packed array off(k) = k*w; for
any other array off is an uninterpreted function about which only what a valid array guarantees is
known (elements lie inside the memory and do not overlap).  The iterator contracts of specs_array
(proved under P05 on the index vector itself) are used here in terms of the row-major number k of the
index vector: the cell pos[0] carries that number.
"""
from .term import *
from .exec import *
from .contract import *
from .world import *
from .specs_array import A_, I_, dtype_of, norm_bytes, width, BIG, NATIVE

class Arr:
    """shape of an array as far as element addresses go"""
    def __init__(self, tag, w, packed, total, size=None, org=ZERO):
        self.tag = tag; self.w = w; self.packed = packed; self.total = P(total)
        self.size = size; self.org = org
        self.fn = 'eoff_' + tag
        if not packed:
            MAKERS[self.fn] = self.off
    def off(self, k):
        k = P(k)
        if self.packed:
            return k * self.w
        lo = hi = None
        v = app(self.fn, k, lo=-BIG, hi=BIG)
        if not ATOMS[atom_id(v)].extra and self.size is not None:
            define(v, imp(and_(ge(k, 0), lt(k, self.total)), and_(ge(self.org + v, 0), le(self.org + v + self.w, self.size))))
        return v
    def index(self, S, d):
        """(element number, byte within it) of the byte at data + d; None when unknown"""
        if self.packed:
            k = fdivp(d, C(self.w))
            return k, d - k * self.w
        for m, c in d.t.items():
            if len(m) == 1 and c == 1:
                a = ATOMS[m[0]]
                if a.kind == 'app' and a.data[0] == self.fn:
                    return P(a.data[1][0]), d - Poly.atom(a)
        return None, None
    def number(self, S, d):
        """element number whose address is data + d"""
        k, r = self.index(S, d)
        if k is None:
            raise Unsupported('address %r is not that of an element of %s' % (d, self.tag))
        S.require('the iterator of %s points at an element' % self.tag, eq(r, 0))
        return k

def arr_of(S, a):
    """element geometry of the array structure at a"""
    o, off = S.resolve(a)
    if o is None:
        raise Unsupported('unknown array')
    if 'arr' in o.info and off == 0:
        return o.info['arr']
    n = get(S, a, 'BigArray', 'ndim')
    t = dtype_of(S, A_(a, 'dtype'))
    if not n.is_const() or t is None:
        raise Unsupported('array of unknown shape')
    w = width(t)
    st = C(w); tot = ONE
    for d in range(n.cval() - 1, -1, -1):
        if S.rd(A_(a, 'strides') + 8 * d, 8) != st:
            raise Unsupported('array that is not packed')
        D = S.rd(A_(a, 'dims') + 8 * d, 8)
        st = st * D; tot = tot * D
    return Arr('%s%d' % (o.name, o.id), w, True, tot)

def eoff_hook(S, off, size, off2, size2):
    """two accesses relative to elements of the same array: same element or disjoint"""
    d = off - off2
    ap = [(ATOMS[m[0]], c) for m, c in d.t.items() if len(m) == 1 and ATOMS[m[0]].kind == 'app' and ATOMS[m[0]].data[0].startswith('eoff_')]
    if len(ap) == 2 and ap[0][1] * ap[1][1] == -1 and ap[0][0].data[0] == ap[1][0].data[0]:
        r = d - Poly.atom(ap[0][0]) * ap[0][1] - Poly.atom(ap[1][0]) * ap[1][1]
        if r.is_const():
            if S.decide(eq(ap[0][0].data[1][0] - ap[1][0].data[1][0], 0)):
                c = r.cval()
                if c == 0 and size == size2:
                    return 'same', 0
                if c >= size2 or c + size <= 0:
                    return 'disj', 0
                return 'part', c
            return 'disj', 0
    return None
def eoff_region(S, o, off, size, off2, ln):
    if ln.is_const():
        r = eoff_hook(S, off, size, off2, ln.cval())
        if r is not None:
            if r[0] == 'disj':
                return False
            if r[0] == 'same' or (r[1] >= 0 and r[1] + size <= ln.cval()):
                return True
            raise Unsupported('access across elements')
    return None

class ElemRegion:
    """elements k0 .. k0+n-1 of an array with given contents: parts(S, x) -> [(bytes, value)] of element k0+x"""
    def __init__(self, arr, data, k0, n, parts):
        self.arr = arr; self.data = P(data); self.k0 = P(k0); self.n = P(n); self.parts = parts
    def read(self, S, o, off, size):
        b, boff = S.resolve(self.data)
        k, r = self.arr.index(S, off - boff)
        if k is None:
            raise Unsupported('read at %r beside the elements of %s' % (off, self.arr.tag))
        x = k - self.k0
        if not S.decide(and_(ge(x, 0), lt(x, self.n))):
            return None
        if not r.is_const():
            for j in range(self.arr.w):
                if S.decide(eq(r, j)):
                    r = C(j); break
        r = r.cval()
        if r + size > self.arr.w:
            raise Unsupported('read across elements')
        ps = self.parts(S, x)
        return part_read(S, ps, r, size)
    def subst(self, mp):
        g = self.parts
        return ElemRegion(self.arr, subst(self.data, mp), subst(self.k0, mp), subst(self.n, mp), lambda S, x: [(n, subst(v, mp)) for n, v in g(S, x)])

def part_read(S, ps, r, size):
    pos = 0
    for n, v in ps:
        if pos == r and n == size:
            return v
        if pos <= r and r + size <= pos + n:
            if size == 1:
                return byte_of(v, r - pos, n)
            return join_bytes(*[byte_of(v, r - pos + j, n) for j in range(size)])
        pos += n
    return join_bytes(*[part_read(S, ps, r + j, 1) for j in range(size)])

class Elems:
    """frame and postcondition entry: the elements get the given parts"""
    def __init__(self, arr, data, k0, n, parts, name):
        self.arr = arr; self.data = P(data); self.k0 = P(k0); self.n = P(n); self.parts = parts; self.name = name
    def oid(self, S):
        return S.resolve(self.data)[0].id
    def covers(self, S, off, ln):
        """formula: [off, off+ln) lies in one of the elements (or in the packed run of them)"""
        b, boff = S.resolve(self.data)
        d = off - boff
        if self.arr.packed:
            lo, hi = self.arr.off(self.k0), self.arr.off(self.k0 + self.n)
            return and_(ge(d, lo), le(d + ln, hi))
        k, r = self.arr.index(S, d)
        if k is None:
            return FALSE
        return and_(ge(k, self.k0), lt(k, self.k0 + self.n), ge(r, 0), le(r + ln, self.arr.w))
    def push(self, S):
        o, off = S.resolve(self.data)
        S.ex.note_elems(S, self)
        S.push(o, ('R', ZERO, ZERO, ElemRegion(self.arr, self.data, self.k0, self.n, self.parts)))
    def check(self, R, mp):
        def q(S):
            x = S.fresh('x', 0, 1 << 62)
            S.assume(lt(x, subst(self.n, mp)))
            k = subst(self.k0, mp) + x
            o, boff = S.resolve(self.data)
            base = boff + self.arr.off(k)
            fs = []
            pos = 0
            for n, v in self.parts(S, x):
                fs.append(eq(S.read(o, base + pos, n), subst(v, mp)))
                pos += n
            return and_(*fs)
        return q

# ------------------------------------------------------------- iterators
def it_state(S, it):
    """(array, geometry, data, element number, flag) of an iterator; its representation is obliged"""
    a = get(S, it, 'BigArrayIter', 'array')
    arr = arr_of(S, a)
    data = get(S, a, 'BigArray', 'data')
    k = arr.number(S, get(S, it, 'BigArrayIter', 'dataptr') - data)
    flag = get(S, it, 'BigArrayIter', 'contiguous')
    p = S.rd(I_(it, 'pos'), 8)
    S.require('the index vector is that of the current element', or_(eq(p, k), ne(flag, 0)))
    if not arr.packed:
        S.require('only packed arrays are walked as contiguous', eq(flag, 0))
    return a, arr, data, k, flag

def it_moved(S, e, it, arr, data, k, flag, name):
    e.cell(I_(it, 'dataptr'), 8, data + arr.off(k), name)
    return e

class AdvanceK(Contract):
    """big_array_iter_advance in terms of element numbers (P05 proves it on index vectors)"""
    name = 'big_array_iter_advance'
    def spec(self, S, args):
        it, = args
        a, arr, data, k, flag = it_state(S, it)
        S.require('the iterator is inside the array', and_(ge(k, 0), lt(k, arr.total)))
        e = Effect()
        it_moved(S, e, it, arr, data, k + 1, flag, 'next element')
        if not S.decide(ne(flag, 0)):
            e.cell(I_(it, 'pos'), 8, k + 1, 'next index vector')
        return e

class IterInitK(Contract):
    name = 'big_array_iter_init'
    def spec(self, S, args):
        it, a = args
        arr = arr_of(S, a)
        e = Effect()
        e.allow.append((it, C(sizeof('BigArrayIter'))))
        e.cell(I_(it, 'array'), 8, a, 'array')
        e.cell(I_(it, 'dataptr'), 8, get(S, a, 'BigArray', 'data') + arr.off(0), 'first element')
        e.cell(I_(it, 'pos'), 8, ZERO, 'first index vector')
        f = S.fresh('contiguous', -(1 << 31), (1 << 31) - 1)
        if not arr.packed:
            f = ZERO
        e.cell(I_(it, 'contiguous'), 4, f, 'flag')
        return e

def mkarray(S, tag, t, packed, total=None, ro=False, data_kind='heap'):
    """an arbitrary valid array of concrete type t, and an iterator standing at element k"""
    w = width(t)
    total = var('total_' + tag, 0, MAXROWS) if total is None else P(total)
    if packed:
        size = total * w; org = ZERO
    else:
        size = var('bytes_' + tag, 0, BIG); org = var('org_' + tag, 0, BIG)
        S.assume(le(org, size))
    arr = Arr(tag, w, packed, total, size, org)
    a = obj(S, tag, sizeof('BigArray'), const=True, arr=arr)
    memb = lambda S, off, size: app('mem_' + tag, off, lo=-128, hi=127) if size == 1 else join_bytes(*[app('mem_' + tag, off + j, lo=-128, hi=127) for j in range(size)])
    d = obj(S, tag + '.data', size, data_kind, reader=memb, const=ro)
    n = var('ndim_' + tag, 1, 32)
    put(S, a.base, 'BigArray', 'ndim', n)
    puts(S, A_(a.base, 'dtype'), norm_bytes(t), 8)
    put(S, a.base, 'BigArray', 'data', d.base + org)
    put(S, a.base, 'BigArray', 'size', total)
    rd = lambda S, off, size: app('stride_' + tag, off, C(size), lo=-BIG, hi=BIG)
    S.push(a, ('H', C(fo('BigArray', 'strides')), C(fs('BigArray', 'strides')), rd))
    if packed:
        S.assume(eq(rd(S, fo('BigArray', 'strides') + (n - 1) * 8, 8), w))
    return a, arr, d

def mkiter(S, tag, a, arr, flag, k=None):
    it = obj(S, 'iter_' + tag, sizeof('BigArrayIter'))
    k = var('at_' + tag, 0, MAXROWS) if k is None else P(k)
    put(S, it.base, 'BigArrayIter', 'array', a.base)
    data = get(S, a.base, 'BigArray', 'data')
    put(S, it.base, 'BigArrayIter', 'dataptr', data + arr.off(k))
    put(S, it.base, 'BigArrayIter', 'contiguous', flag)
    put(S, it.base, 'BigArrayIter', 'pos', 0) if False else None
    S.push(it, ('W', C(fo('BigArrayIter', 'pos')), C(8), k if flag == 0 else var('p0_' + tag, -BIG, BIG)))
    return it, k
