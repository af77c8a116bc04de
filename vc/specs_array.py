"""P05: arrays and their iterators; P20: type strings."""
from .term import *
from .exec import *
from .contract import *
from .world import *

A_ = lambda p, f: fld(p, 'BigArray', f)
I_ = lambda p, f: fld(p, 'BigArrayIter', f)
BIG = 1 << 62
NATIVE = b'<'

def dim(S, a, d):
    return S.rd(A_(a, 'dims') + P(d) * 8, 8)
def stride(S, a, d):
    return S.rd(A_(a, 'strides') + P(d) * 8, 8)
def pos(S, it, d):
    return S.rd(I_(it, 'pos') + P(d) * 8, 8)

class DtypeErr(Exception):
    pass

def norm_bytes(b):
    """normalised form of a concrete type string: 8 bytes"""
    b = b.split(b'\0')[0]
    if b[:1] in (b'<', b'>', b'|', b'='):
        d = b[:8].ljust(8, b'\0')
    else:
        d = (b'=' + b[:7]).ljust(8, b'\0')
    d = bytearray(d); d[7] = 0
    if d[0] in b'=|':
        d[0] = NATIVE[0]
    return bytes(d)

def width(b):
    m = re.match(rb'[ \t\n\v\f\r]*([+-]?\d+)', norm_bytes(b)[2:].split(b'\0')[0])
    return int(m.group(1)) if m else 0

import re
def dtype_of(S, p):
    """concrete type string stored at p"""
    out = bytearray()
    for j in range(9):
        v = S.rd(p + j, 1)
        if not v.is_const():
            return None
        if v.cval() == 0:
            return bytes(out)
        out.append(v.cval() & 255)
    return bytes(out)

# ---------------------------------------------------------------- iterator advance
class IterAdvance(Contract):
    name = 'big_array_iter_advance'
    DIMS = list(range(1, 33))
    def cases(self):
        return ['contiguous'] + ['strided, %d dimensions' % n for n in self.DIMS]
    def setup(self, ex, S, case):
        a = obj(S, 'array', sizeof('BigArray'), const=True)
        it = obj(S, 'iter', sizeof('BigArrayIter'))
        data = obj(S, 'data', None)
        put(S, it.base, 'BigArrayIter', 'array', a.base)
        put(S, a.base, 'BigArray', 'data', data.base)
        if case == 'contiguous':
            n = var('ndim', 1, 32)
            put(S, a.base, 'BigArray', 'ndim', n)
            put(S, it.base, 'BigArrayIter', 'contiguous', 1)
            put(S, it.base, 'BigArrayIter', 'dataptr', data.base + var('off', -BIG, BIG))
            return [it.base]
        n = int(case.split()[1])
        put(S, a.base, 'BigArray', 'ndim', n)
        put(S, it.base, 'BigArrayIter', 'contiguous', 0)
        off = ZERO
        for d in range(n):
            D = var('dims%d' % d, 1, BIG); st = var('stride%d' % d, -BIG, BIG); x = var('pos%d' % d, 0, BIG)
            S.push(a, ('W', C(fo('BigArray', 'dims') + 8 * d), C(8), D))
            S.push(a, ('W', C(fo('BigArray', 'strides') + 8 * d), C(8), st))
            S.push(it, ('W', C(fo('BigArrayIter', 'pos') + 8 * d), C(8), x))
            off = off + x * st
        put(S, it.base, 'BigArrayIter', 'dataptr', data.base + off)
        return [it.base]
    def spec(self, S, args):
        it, = args
        a = get(S, it, 'BigArrayIter', 'array')
        e = Effect()
        cont = get(S, it, 'BigArrayIter', 'contiguous')
        n = get(S, a, 'BigArray', 'ndim')
        dp = get(S, it, 'BigArrayIter', 'dataptr')
        if not S.decide(eq(cont, 0)):
            S.require('a contiguous iterator has at least one dimension', and_(ge(n, 1), le(n, 32)))
            e.cell(I_(it, 'dataptr'), 8, dp + stride(S, a, n - 1), 'dataptr moves to the next element')
            return e
        if not n.is_const():
            raise Unsupported('strided iterator with unknown dimensions')
        n = n.cval()
        data = get(S, a, 'BigArray', 'data')
        x = [pos(S, it, d) for d in range(n)]
        D = [dim(S, a, d) for d in range(n)]
        s = [stride(S, a, d) for d in range(n)]
        off = ZERO
        for d in range(n):
            S.require('index %d is inside its dimension' % d, and_(ge(x[d], 0), lt(x[d], D[d])))
            # the array lies in the address space
            S.require('byte distance along dimension %d is representable' % d, and_(ge(s[d] * (x[d] + 1), -BIG), le(s[d] * (x[d] + 1), BIG)))
            off = off + x[d] * s[d]
        S.require('dataptr is the address of the current element', eq(dp, data + off))
        # row-major successor: the last dimension that is not at its end advances, those after it restart
        y = list(x)
        d = n - 1
        while d >= 0 and S.decide(eq(x[d] + 1, D[d])):
            y[d] = ZERO
            d -= 1
        if d >= 0:
            y[d] = x[d] + 1
        off2 = ZERO
        for j in range(n):
            off2 = off2 + y[j] * s[j]
            e.cell(I_(it, 'pos') + 8 * j, 8, y[j], 'index %d is that of the row-major successor' % j)
        e.cell(I_(it, 'dataptr'), 8, data + off2, 'dataptr is data plus the sum of index times stride')
        return e

# ---------------------------------------------------------------- iterator init
class IterInit(Contract):
    name = 'big_array_iter_init'
    DIMS = list(range(1, 33))
    TYPES = [b'<f8', b'>i4', b'S3']
    def cases(self):
        return ['%d dimensions %s' % (n, t.decode()) for n in self.DIMS for t in self.TYPES if n < 4 or t == b'<f8']
    def setup(self, ex, S, case):
        n = int(case.split()[0]); t = case.split()[2].encode()
        a = obj(S, 'array', sizeof('BigArray'), const=True)
        it = obj(S, 'iter', sizeof('BigArrayIter'))
        data = obj(S, 'data', None)
        put(S, a.base, 'BigArray', 'data', data.base)
        put(S, a.base, 'BigArray', 'ndim', n)
        puts(S, A_(a.base, 'dtype'), norm_bytes(t), 8)
        for d in range(n):
            D = var('dims%d' % d, 0, BIG); st = var('stride%d' % d, -BIG, BIG)
            S.push(a, ('W', C(fo('BigArray', 'dims') + 8 * d), C(8), D))
            S.push(a, ('W', C(fo('BigArray', 'strides') + 8 * d), C(8), st))
        return [it.base, a.base]
    def uses(self):
        return {'big_file_dtype_itemsize': Itemsize()}
    def spec(self, S, args):
        it, a = args
        t = dtype_of(S, A_(a, 'dtype'))
        n = get(S, a, 'BigArray', 'ndim')
        if t is None or not n.is_const():
            raise Unsupported('array')
        n = n.cval()
        w = width(t)
        e = Effect()
        # contiguous: every stride is the packed row-major stride
        packed = C(w)
        cont = TRUE
        for d in range(n - 1, -1, -1):
            S.require('extent of the packed array is representable', and_(ge(packed, 0), le(packed, BIG)))
            if not S.decide(eq(stride(S, a, d), packed)):
                cont = FALSE
                break
            if d > 0:
                packed = packed * dim(S, a, d)
            else:
                S.require('extent of the packed array is representable', and_(ge(packed * dim(S, a, d), 0), le(packed * dim(S, a, d), BIG)))
        for j in range(32):
            e.cell(I_(it, 'pos') + 8 * j, 8, ZERO, 'index %d starts at zero' % j)
        e.cell(I_(it, 'array'), 8, a, 'array')
        e.cell(I_(it, 'dataptr'), 8, get(S, a, 'BigArray', 'data'), 'dataptr is the first element')
        f = S.fresh('contiguous', -(1 << 31), (1 << 31) - 1)
        e.exists = [(f, lambda S, ret: get(S, it, 'BigArrayIter', 'contiguous'))]
        if cont is FALSE:
            e.post.append(('not contiguous unless every stride is the packed one', eq(f, 0)))
        e.cell(I_(it, 'contiguous'), 4, f, 'contiguous flag')
        pad = sizeof('BigArrayIter')
        e.allow.append((it, C(pad)))
        return e

# ---------------------------------------------------------------- array init
class ArrayInit(Contract):
    name = 'big_array_init'
    DIMS = list(range(1, 33))
    TYPES = [b'f8', b'>i4', b'|S3']
    def cases(self):
        return ['%d dimensions %s %s' % (n, t.decode(), s) for n in self.DIMS for t in self.TYPES for s in ('default', 'strides')
                if (n < 4 or t == b'f8')]
    def uses(self):
        return {'big_file_dtype_itemsize': Itemsize(), '_dtype_normalize': Normalize()}
    def setup(self, ex, S, case):
        n, _, t, s = case.split()
        n = int(n)
        a = obj(S, 'array', sizeof('BigArray'))
        data = obj(S, 'data', None)
        dt = obj(S, 'dtype', len(t) + 1, const=True)
        puts(S, dt.base, t.encode() + b'\0')
        dims = obj(S, 'dims', 8 * n, const=True)
        for d in range(n):
            S.push(dims, ('W', C(8 * d), C(8), var('dims%d' % d, 0, BIG)))
        st = ZERO
        if s == 'strides':
            so = obj(S, 'strides', 8 * n, const=True)
            for d in range(n):
                S.push(so, ('W', C(8 * d), C(8), var('stride%d' % d, -BIG, BIG)))
            st = so.base
        return [a.base, data.base, dt.base, C(n), dims.base, st]
    def spec(self, S, args):
        a, buf, dt, n, dims, st = args
        t = dtype_of(S, dt)
        if t is None or not n.is_const():
            raise Unsupported('array init')
        n = n.cval()
        w = width(t)
        e = Effect(ret=ZERO)
        e.allow.append((a, C(sizeof('BigArray'))))
        nb = norm_bytes(t)
        for j in range(8):
            e.cell(A_(a, 'dtype') + j, 1, C(wrap_const(nb[j], 8)), 'type string is normalised')
        D = [S.rd(dims + 8 * d, 8) for d in range(n)]
        size = ONE
        for d in range(n):
            size = size * D[d]
            S.require('number of elements is representable', and_(ge(size, 0), le(size, BIG)))
        packed = C(w)
        null = st.is_const() and st.cval() == 0
        for d in range(n - 1, -1, -1):
            e.cell(A_(a, 'dims') + 8 * d, 8, D[d], 'dims[%d]' % d)
            if null:
                e.cell(A_(a, 'strides') + 8 * d, 8, packed, 'default stride of dimension %d is that of a packed row-major array' % d)
                if d > 0:
                    packed = packed * D[d]
                    S.require('packed extent is representable', and_(ge(packed, 0), le(packed, BIG)))
            else:
                e.cell(A_(a, 'strides') + 8 * d, 8, S.rd(st + 8 * d, 8), 'strides[%d]' % d)
        e.cell(A_(a, 'ndim'), 4, C(n), 'ndim')
        e.cell(A_(a, 'size'), 8, size, 'size is the product of the dimensions')
        e.cell(A_(a, 'data'), 8, buf, 'data')
        return e

# ---------------------------------------------------------------- type strings, concrete use
class Normalize(Contract):
    """used at call sites on concrete strings; proved on symbolic ones (NormalizeSym)"""
    name = '_dtype_normalize'
    def spec(self, S, args):
        dst, src = args
        t = dtype_of(S, src)
        if t is None:
            return self.sym(S, dst, src)
        e = Effect(ret=ZERO)
        for j, c in enumerate(norm_bytes(t)):
            e.cell(dst + j, 1, C(wrap_const(c, 8)), 'byte %d' % j)
        return e
    def sym(self, S, dst, src):
        raise Unsupported('symbolic type string')

class Itemsize(Contract):
    name = 'big_file_dtype_itemsize'
    def spec(self, S, args):
        t = dtype_of(S, args[0])
        if t is None:
            raise Unsupported('symbolic type string')
        return Effect(ret=C(width(t)))

class Kind(Contract):
    name = 'big_file_dtype_kind'
    def spec(self, S, args):
        t = dtype_of(S, args[0])
        if t is None:
            raise Unsupported('symbolic type string')
        return Effect(ret=C(wrap_const(norm_bytes(t)[1], 8)))

# ---------------------------------------------------------------- P20: symbolic type strings
MARKS = [ord(c) for c in '<>|=']
KINDS = [ord(c) for c in 'Sbifuc']
class Sym(Contract):
    """source string of exactly L characters, every character arbitrary (8 and more behave alike: only 8 are looked at)"""
    LENS = list(range(0, 10))
    def cases(self):
        return ['string of length %d' % n for n in self.LENS]
    def source(self, S, case, const=True):
        L = int(case.split()[-1])
        src = obj(S, 'src', L + 1, const=const)
        for j in range(L):
            c = var('c%d' % j, -128, 127)
            S.assume(ne(c, 0))
            S.push(src, ('W', C(j), C(1), c))
        S.push(src, ('W', C(L), C(1), ZERO))
        return src
def chars(S, p, n=8):
    """characters before the NUL, at most n"""
    out = []
    for j in range(n):
        c = S.rd(p + j, 1)
        if S.decide(eq(c, 0)):
            break
        out.append(c)
    return out
def one_of(c, vals):
    return or_(*[eq(c, wrap_const(v, 8)) for v in vals])
def split_type(S, p):
    """(mark or None, remaining characters); at most 7 characters are significant"""
    cs = chars(S, p)
    if cs and S.decide(one_of(cs[0], MARKS)):
        m = cs[0]
        if S.decide(one_of(m, [ord('|'), ord('=')])):
            m = C(NATIVE[0])
        return m, cs[1:7]
    return None, cs[:6]

class NormalizeSym(Sym):
    name = '_dtype_normalize'
    def setup(self, ex, S, case):
        src = self.source(S, case)
        dst = obj(S, 'dst', 8)
        return [dst.base, src.base]
    def spec(self, S, args):
        dst, src = args
        m, rest = split_type(S, src)
        e = Effect(ret=ZERO)
        e.cell(dst, 1, m if m is not None else C(NATIVE[0]), 'byte order mark: the explicit one, else native')
        for j in range(6):
            e.cell(dst + 1 + j, 1, rest[j] if j < len(rest) else ZERO, 'kind and width are kept (character %d)' % j)
        e.cell(dst + 7, 1, ZERO, 'terminated within eight bytes')
        return e

class NormalizeTwice(NormalizeSym):
    """normalising a normalised string changes nothing (lemma over the contract: same body, normalised input)"""
    def setup(self, ex, S, case):
        a = NormalizeSym.setup(self, ex, S, case)
        S.assume(one_of(S.rd(a[1], 1), [ord('<'), ord('>')]))
        self.L = int(case.split()[-1])
        return a
    def cases(self):
        return ['normalised string of length %d' % n for n in range(1, 8)]
    def spec(self, S, args):
        dst, src = args
        e = Effect(ret=ZERO)
        for j in range(self.L + 1):
            e.cell(dst + j, 1, S.rd(src + j, 1), 'idempotent: character %d unchanged' % j)
        for j in range(self.L + 1, 8):
            e.cell(dst + j, 1, ZERO, 'padding')
        return e

def decimal(S, cs):
    """value of a decimal number at the start of the characters (C atoi)"""
    j = 0
    while j < len(cs) and S.decide(or_(eq(cs[j], 32), and_(ge(cs[j], 9), le(cs[j], 13)))):
        j += 1
    neg = False
    if j < len(cs) and S.decide(eq(cs[j], 45)):
        neg = True; j += 1
    elif j < len(cs) and S.decide(eq(cs[j], 43)):
        j += 1
    v = ZERO
    while j < len(cs) and S.decide(and_(ge(cs[j], 48), le(cs[j], 57))):
        v = v * 10 + cs[j] - 48
        j += 1
    return -v if neg else v

class ItemsizeSym(Sym):
    name = 'big_file_dtype_itemsize'
    LENS = list(range(0, 9))
    def uses(self):
        return {'_dtype_normalize': NormalizeSym()}
    def setup(self, ex, S, case):
        return [self.source(S, case).base]
    def spec(self, S, args):
        m, rest = split_type(S, args[0])
        return Effect(ret=decimal(S, rest[1:]))

class KindSym(ItemsizeSym):
    name = 'big_file_dtype_kind'
    LENS = list(range(0, 10))
    def spec(self, S, args):
        m, rest = split_type(S, args[0])
        return Effect(ret=rest[0] if rest else ZERO)

class Valid(Sym):
    name = 'dtype_isvalid'
    LENS = list(range(0, 7))
    def cases(self):
        return ['null'] + Sym.cases(self)
    def setup(self, ex, S, case):
        if case == 'null':
            return [ZERO]
        return [self.source(S, case).base]
    def spec(self, S, args):
        p = args[0]
        if p.is_const() and p.cval() == 0:
            return Effect(ret=ZERO)
        cs = chars(S, p)
        ok = False
        if cs and S.decide(one_of(cs[0], MARKS)):
            if len(cs) > 1 and S.decide(one_of(cs[1], KINDS)):
                v = decimal(S, cs[2:])
                ok = S.decide(and_(ge(v, 1), le(v, 16)))
        if not ok:
            return Effect(ret=ZERO)
        r = S.fresh('valid', -(1 << 31), (1 << 31) - 1)
        e = Effect(ret=r)
        e.exists = [(r, lambda S, ret: ret)]
        e.post = [('accepted', ne(r, 0))]
        return e
