"""P06: conversion between element types and byte orders."""
from .term import *
from .exec import *
from .contract import *
from .world import *
from .elems import *
from .specs_array import Itemsize, Normalize, ArrayInit, DtypeErr
from .specs_seek import m_raise

# C types of the convertible numbers: kind, bits
NUM = {'i4': ('s', 32), 'u4': ('u', 32), 'i8': ('s', 64), 'u8': ('u', 64), 'f4': ('f', 32), 'f8': ('f', 64), 'b1': ('s', 8)}
TO = ['i8', 'u8', 'f8', 'i4', 'u4', 'f4']
FP = {32: 'float', 64: 'double'}

def conv1(S, d, s, v):
    """C conversion of the value v (canonical signed bits) from type s to type d"""
    dk, db = d; sk, sb = s
    if sk == 'f' and dk == 'f':
        if db == sb:
            return v
        return app('%s_%s_%s' % ('fpext' if db > sb else 'fptrunc', FP[sb], FP[db]), v)
    if sk == 'f':
        return app('%s_%s_i%d' % ('fptosi' if dk == 's' else 'fptoui', FP[sb], db), v, lo=-(1 << (db - 1)), hi=(1 << (db - 1)) - 1)
    if dk == 'f':
        return app('%s_i%d_%s' % ('sitofp' if sk == 's' else 'uitofp', sb, FP[db]), v)
    # integers: the value modulo 2^bits
    u = v
    if sk == 'u' and db > sb:
        u = S.ex.to_unsigned(S, v, sb)
    return S.ex.wrap(S, u, db)

def supported(d, s):
    if d == s:
        return True
    if d in TO and s in NUM:
        return True
    return (d, s) in (('c8', 'c16'), ('c16', 'c8'))

def split_kw(t):
    return t[1:].split(b'\0')[0].decode()

def convert_parts(S, d, s, parts):
    """native value of type s as parts -> native value of type d"""
    if d == s:
        return parts
    if d in NUM:
        (n, v), = parts
        return [(NUM[d][1] // 8, conv1(S, NUM[d], NUM[s], v))]
    df, sf = (('f', 32), ('f', 64)) if d == 'c8' else (('f', 64), ('f', 32))
    return [(df[1] // 8, conv1(S, df, sf, v)) for n, v in parts]

def swap_parts(kw, parts):
    """reverse the bytes of each number; text has no byte order"""
    if kw[0] in 'Sa':
        return parts
    out = []
    for n, v in parts:
        out.append((n, join_bytes(*[byte_of(v, n - 1 - j, n) for j in range(n)])))
    return out

def native_layout(kw):
    """sizes of the numbers an element is made of"""
    w = int(re.match(r'\d+', kw[1:]).group(0))
    return [w // 2, w // 2] if kw[0] == 'c' else [w]
import re

def source_parts(S, arr, data, j0, kw):
    """parts of source element j0+x as the memory now holds it"""
    so, boff = S.resolve(data)
    log = S.mem[so.id].log
    lay = native_layout(kw)
    def f(S2, x):
        base = boff + arr.off(j0 + x)
        out = []
        p = 0
        for n in lay:
            out.append((n, read_log(S2, so, log, base + p, n)))
            p += n
        return out
    return f

class Conv(Contract):
    batch = 25
    def models(self):
        return {'_big_file_raise': m_raise}
    def uses(self):
        return {'big_array_iter_advance': AdvanceK(), 'big_array_iter_init': IterInitK(), 'big_file_dtype_itemsize': Itemsize(),
                '_dtype_normalize': Normalize(), 'big_array_init': ArrayInit()}
    def hints(self, ex, case):
        ex.disjoint_hook = eoff_hook
        ex.region_hook = eoff_region
        ex.malloc_may_fail = True
    FLAGS = {'contiguous': 1, 'packed': 0, 'strided': 0}
    def two(self, ex, S, td, ts, ld, ls):
        """destination and source iterators over arrays of the given types and layouts"""
        its = []
        n = var('nmemb', 0, MAXROWS)
        for tag, t, l in (('dst', td, ld), ('src', ts, ls)):
            a, arr, d = mkarray(S, tag, t, l != 'strided', None, ro=(tag == 'src'))
            it, k = mkiter(S, tag, a, arr, self.FLAGS[l])
            S.assume(le(k + n, arr.total))
            its.append(it.base)
        return its + [n]

def two_state(S, dst, src, n):
    D = it_state(S, dst)
    E = it_state(S, src)
    S.require('the number of items is not negative', ge(n, 0))
    S.require('the destination holds the items', le(D[3] + n, D[1].total))
    S.require('the source holds the items', le(E[3] + n, E[1].total))
    od, os_ = S.resolve(D[2])[0], S.resolve(E[2])[0]
    if od is os_:
        S.require('source and destination are different memory', FALSE)
    return D, E

def advance_cells(S, e, it, st, n, name):
    a, arr, data, k, flag = st
    e.allow.append((I_(it, 'pos'), C(fs('BigArrayIter', 'pos'))))
    e.cell(I_(it, 'dataptr'), 8, data + arr.off(k + n), name)
    if not S.decide(ne(flag, 0)):
        e.cell(I_(it, 'pos'), 8, k + n, name + ' (index vector)')

class Cast(Conv):
    name = 'cast'
    LAYS = [(a, b) for a in ('contiguous', 'packed', 'strided') for b in ('contiguous', 'packed', 'strided')]
    def cases(self):
        out = []
        for d in TO + ['c8', 'c16']:
            for s in list(NUM) + ['c8', 'c16']:
                if d != s and supported(d, s):
                    out += ['%s from %s: %s from %s' % (d, s, a, b) for a, b in (('contiguous', 'contiguous'), ('packed', 'strided'), ('strided', 'packed'), ('strided', 'strided'))]
        for t in SAME:
            out += ['%s from %s: %s from %s' % (t, t, a, b) for a, b in self.LAYS if t in ('f8', 'S3') or a[0] + b[0] in ('cc', 'ss', 'sc', 'cs')]
        return out
    def setup(self, ex, S, case):
        m = re.match(r'(\w+) from (\w+): (\w+) from (\w+)', case)
        d, s, ld, ls = m.groups()
        return self.two(ex, S, b'<' + d.encode(), b'<' + s.encode(), ld, ls)
    def spec(self, S, args):
        dst, src, n = args
        D, E = two_state(S, dst, src, n)
        td = split_kw(norm_bytes(dtype_of(S, A_(D[0], 'dtype'))))
        ts = split_kw(norm_bytes(dtype_of(S, A_(E[0], 'dtype'))))
        if not supported(td, ts):
            r = S.fresh('ret', -(1 << 31), (1 << 31) - 1)
            e = Effect(ret=r)
            e.exists = [(r, lambda S, ret: ret)]
            e.post = [('an unsupported conversion is refused', ne(r, 0))]
            e.ghosts['err'] = ONE
            return e
        e = Effect(ret=ZERO)
        sp = source_parts(S, E[1], E[2], E[3], ts)
        e.elems.append(Elems(D[1], D[2], D[3], n, lambda S2, x: convert_parts(S2, td, ts, sp(S2, x)), 'every element is the converted source element'))
        advance_cells(S, e, dst, D, n, 'the destination iterator moves past the items')
        advance_cells(S, e, src, E, n, 'the source iterator moves past the items')
        return e

SAME = ['S%d' % w for w in range(1, 17)] + ['i8', 'i4', 'f8', 'c8', 'c16', 'b1', 'u2']
KW = ['i4', 'i8', 'u4', 'u8', 'f4', 'f8', 'c8', 'c16', 'b1', 'S1', 'S4', 'S8', 'S16', 'i2', 'u2', 'i1', 'u1', 'f2', 'a4']

class CastBad(Conv):
    name = 'cast'
    def cases(self):
        return ['%s from %s' % (d, s) for d in KW for s in KW if not supported(d, s)]
    def setup(self, ex, S, case):
        d, s = case.split(' from ')
        return self.two(ex, S, b'<' + d.encode(), b'<' + s.encode(), 'contiguous', 'strided')
    spec = Cast.spec

class ByteSwap(Conv):
    name = 'byte_swap'
    TYPES = ['i2', 'u2', 'f2', 'i4', 'u4', 'f4', 'i8', 'u8', 'f8', 'c8', 'c16', 'b1', 'S1', 'S4', 'S9', 'a4', 'i3', 'f16', 'c2', 'c4']
    def cases(self):
        return ['%s %s' % (t, l) for t in self.TYPES for l in ('contiguous', 'packed', 'strided')]
    def setup(self, ex, S, case):
        t, l = case.split()
        a, arr, d = mkarray(S, 'arr', b'>' + t.encode(), l != 'strided')
        it, k = mkiter(S, 'arr', a, arr, self.FLAGS[l])
        n = var('nmemb', 0, MAXROWS)
        S.assume(le(k + n, arr.total))
        return [it.base, n]
    def spec(self, S, args):
        it, n = args
        a, arr, data, k, flag = it_state(S, it)
        S.require('the number of items is not negative', ge(n, 0))
        S.require('the array holds the items', le(k + n, arr.total))
        kw = split_kw(norm_bytes(dtype_of(S, A_(a, 'dtype'))))
        e = Effect()
        e.allow.append((it, C(sizeof('BigArrayIter'))))
        sp = source_parts(S, arr, data, k, kw)
        e.elems.append(Elems(arr, data, k, n, lambda S2, x: swap_parts(kw, sp(S2, x)), 'the bytes of every number are reversed in place'))
        return e

class Convert(Conv):
    """_dtype_convert: cast between any two types and byte orders"""
    name = '_dtype_convert'
    TYPES = TO + ['b1', 'c8', 'c16', 'S3', 'i2']
    def uses(self):
        u = dict(Conv.uses(self))
        u.update({'cast': Cast(), 'byte_swap': ByteSwap()})
        return u
    def cases(self):
        out = []
        for d in self.TYPES:
            for s in self.TYPES:
                for bd in '<>':
                    for bs in '<>':
                        lays = [('contiguous', 'strided'), ('strided', 'contiguous')]
                        if (d, s) in (('f8', 'i4'), ('i8', 'i8'), ('c8', 'c16')):
                            lays = Cast.LAYS
                        if not supported(d, s):
                            lays = lays[:1]
                        out += ['%s%s from %s%s: %s from %s' % (bd, d, bs, s, a, b) for a, b in lays]
        return out
    def setup(self, ex, S, case):
        m = re.match(r'(\S+) from (\S+): (\w+) from (\w+)', case)
        d, s, ld, ls = m.groups()
        return self.two(ex, S, d.encode(), s.encode(), ld, ls)
    def spec(self, S, args):
        dst, src, n = args
        D, E = two_state(S, dst, src, n)
        return convert_spec(S, D, E, n, [(dst, D, 'destination'), (src, E, 'source')])

def convert_spec(S, D, E, n, its):
    S.require('the items fit the address space', le(n, MAXROWS))
    dt = norm_bytes(dtype_of(S, A_(D[0], 'dtype'))); st = norm_bytes(dtype_of(S, A_(E[0], 'dtype')))
    td, ts = split_kw(dt), split_kw(st)
    bad = Effect(ret=C(-1))
    bad.ghosts['err'] = ONE
    if not supported(td, ts):
        return bad
    good = Effect(ret=ZERO)
    sp = source_parts(S, E[1], E[2], E[3], ts)
    def parts(S2, x):
        p = sp(S2, x)
        if st[:1] != NATIVE:
            p = swap_parts(ts, p)
        p = convert_parts(S2, td, ts, p)
        if dt[:1] != NATIVE:
            p = swap_parts(td, p)
        return p
    good.elems.append(Elems(D[1], D[2], D[3], n, parts, 'every element is the converted source element, in the byte order of the destination'))
    for it, s, nm in its:
        advance_cells(S, good, it, s, n, 'the %s iterator moves past the items' % nm)
        good.allow.append((it, C(sizeof('BigArrayIter'))))
        a, arr, data, k, flag = s
        good.cell(I_(it, 'array'), 8, a, 'the %s iterator stays with its array' % nm)
        good.cell(I_(it, 'contiguous'), 4, flag, 'the %s iterator keeps its flag' % nm)
    if st[:1] == NATIVE:
        return good
    bad.ghosts['fault'] = ONE
    good.ghosts['fault'] = S.ghost.get('fault', ZERO)
    e = Effect()
    e.alts = [('converted', lambda r: eq(r, 0), good), ('out of memory', lambda r: eq(r, -1), bad)]
    return e

class ConvertSimple(Conv):
    """dtype_convert_simple: convert nmemb packed items"""
    name = 'dtype_convert_simple'
    def uses(self):
        u = dict(Conv.uses(self))
        u['_dtype_convert'] = Convert()
        return u
    def cases(self):
        return ['%s%s from %s%s' % (bd, d, bs, s) for d in ('f8', 'i4', 'c8', 'S3') for s in ('f8', 'u2', 'c16', 'i4', 'S3') for bd in '<>' for bs in '<>'] + ['i8 from =i4', '|S3 from S3']
    def setup(self, ex, S, case):
        d, s = case.split(' from ')
        n = var('nmemb', 0, MAXROWS)
        out = []
        for tag, t in (('dst', d), ('src', s)):
            w = width(t.encode())
            memb = lambda S, off, size, tag=tag: app('mem_' + tag, off, lo=-128, hi=127) if size == 1 else join_bytes(*[app('mem_' + tag, off + j, lo=-128, hi=127) for j in range(size)])
            o = obj(S, tag, n * w, 'heap', reader=memb, const=(tag == 'src'))
            st = obj(S, tag + '.dtype', len(t) + 1, const=True)
            puts(S, st.base, t.encode(), len(t) + 1)
            out += [o.base, st.base]
        return out + [n]
    def spec(self, S, args):
        dst, dt, src, st, n = args
        st_ = []
        for tag, p, t in (('dst', dst, dt), ('src', src, st)):
            b = dtype_of(S, t)
            o, off = S.resolve(p)
            S.require('%s holds the items' % tag, and_(ge(off, 0), le(off + n * width(b), o.size)))
            st_.append((norm_bytes(b), Arr(tag, width(b), True, n, o.size, off), p))
        (bd, ad, pd), (bs, as_, ps) = st_
        td, ts = split_kw(bd), split_kw(bs)
        if S.resolve(pd)[0] is S.resolve(ps)[0]:
            S.require('source and destination are different memory', FALSE)
        bad = Effect(ret=C(-1)); bad.ghosts['err'] = ONE
        if not supported(td, ts):
            return bad
        sp = source_parts(S, as_, ps, ZERO, ts)
        def parts(S2, x):
            p = sp(S2, x)
            if bs[:1] != NATIVE:
                p = swap_parts(ts, p)
            p = convert_parts(S2, td, ts, p)
            if bd[:1] != NATIVE:
                p = swap_parts(td, p)
            return p
        good = Effect(ret=ZERO)
        good.elems.append(Elems(ad, pd, ZERO, n, parts, 'every item is the converted source item, in the byte order of the destination'))
        if bs[:1] == NATIVE:
            return good
        bad.ghosts['fault'] = ONE
        good.ghosts['fault'] = S.ghost.get('fault', ZERO)
        e = Effect()
        e.alts = [('converted', lambda r: eq(r, 0), good), ('out of memory', lambda r: eq(r, -1), bad)]
        return e
