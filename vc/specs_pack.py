"""P12: packing a block and unpacking it gives the same block in memory of its own."""
from .term import *
from .exec import *
from .contract import *
from .world import *
from .specs_seek import RAISE, blk
from .specs_path import Strdup, same_text
from .specs_block import B_

AS = lambda p, f: fld(p, 'BigAttrSet', f)
AT = lambda p, k, f: p + P(k) * sizeof('BigAttr') + fo('BigAttr', f)
ATTRS = 1 << 24
ABYTES = (1 << 31) - 1

class Attrs:
    """an arbitrary set of attributes: entries with names and data inside one buffer"""
    def __init__(self, S, b, tag='a'):
        self.b, self.tag = b, tag
        self.n = var('listused_' + tag, 0, ATTRS)
        self.ln = var('listsize_' + tag, 1, ATTRS)
        self.used = var('bufused_' + tag, 0, ABYTES)
        self.size = var('bufsize_' + tag, 1, ABYTES)
        S.assume(and_(le(self.n, self.ln), le(self.used, self.size)))
        self.buf = obj(S, 'attrbuf', self.size, reader=self.bytes)
        self.list = obj(S, 'attrlist', self.ln * sizeof('BigAttr'), reader=self.entry)
        p = b.ao.base
        for f, v in (('attrbuf', self.buf.base), ('attrlist', self.list.base), ('bufused', self.used), ('bufsize', self.size), ('listused', self.n), ('listsize', self.ln)):
            put(S, p, 'BigAttrSet', f, v)
        self.dirty = var('adirty', -(1 << 31), (1 << 31) - 1)
        put(S, p, 'BigAttrSet', 'dirty', self.dirty)
    def bytes(self, S, off, n):
        if n == 1:
            return self.byte(off)
        return join_bytes(*[self.byte(off + j) for j in range(n)])
    def byte(self, j):
        return app('abyte_' + self.tag, j, lo=-128, hi=127)
    def nmemb(self, k):
        return app('anmemb_' + self.tag, k, lo=0, hi=(1 << 31) - 1)
    def dt(self, k, j):
        return app('adtype_' + self.tag, k, C(j), lo=-128, hi=127)
    def off(self, f, k):
        return app('a%soff_%s' % (f, self.tag), k, lo=0, hi=ABYTES)
    def entry(self, S, off, n):
        sz = sizeof('BigAttr')
        k = fdivp(off, C(sz))
        r = off - k * sz
        if not r.is_const():
            raise Unsupported('access inside an attribute at an unknown place %r (%d bytes)' % (off, n))
        r = r.cval()
        if r == fo('BigAttr', 'nmemb') and n == 4:
            return self.nmemb(k)
        for f in ('name', 'data'):
            if r == fo('BigAttr', f) and n == 8:
                return self.buf.base + self.off(f, k)
        d = r - fo('BigAttr', 'dtype')
        if 0 <= d < 8 and n == 1:
            return self.dt(k, d)
        if 0 <= d and d + n <= 8:
            return join_bytes(*[self.dt(k, d + j) for j in range(n)])
        raise Unsupported('part of an attribute')

class RoundTrip(Contract):
    name = 'vp_pack_unpack'
    mods = ('glue', 'bigfile')
    nosums = False       # the receiver's checksums start from zero
    def cases(self):
        return ['block with files', 'block without files']
    def uses(self):
        return {'_strdup': Strdup()}
    def models(self):
        def m_away(ex, S, a):
            for o in self.source():
                S.free(o)
        return dict(RAISE, vp_another_process=m_away)
    def source(self):
        b, a = self.b, self.a
        return [b.o, b.nameo, b.ao, a.buf, a.list] + ([] if b.meta else [b.fsize, b.foffset, b.fchecksum])
    def setup(self, ex, S, case):
        b = self.b = Block(S, meta=(case != 'block with files'))
        self.a = Attrs(S, b)
        for j in range(8):
            put_byte(S, B_(b.p, 'dtype') + j, var('dtype%d' % j, -128, 127))
        put(S, b.p, 'BigBlock', 'dirty', var('dirty_any', -(1 << 31), (1 << 31) - 1))
        S.assume(lt(b.nameo.size, 8192))
        d = obj(S, 'dst', sizeof('BigBlock'))
        return [d.base, b.p]
    def spec(self, S, args):
        d, src = args
        b, a = self.b, self.a
        e = Effect(anyret=True)
        e.allow.append((d, C(sizeof('BigBlock'))))
        e.leak_ok = True
        e.frees += self.source()
        def own(p, size):
            def q(S):
                o, off = S.resolve(p(S))
                return and_(eq(off, 0), ge(o.size, size)) if o is not None and S.alive(o) and o.kind == 'heap' and o.id not in S.ex.frame_old else FALSE
            return q
        at = lambda S: S.rd(B_(d, 'attrset'), 8)
        tabs = [('fsize', 8, b.Nfile), ('foffset', 8, b.Nfile + 1), ('fchecksum', 4, b.Nfile)]
        owned = [('basename', lambda S: S.rd(B_(d, 'basename'), 8), b.nameo.size), ('attrset', at, sizeof('BigAttrSet')),
                 ('attrbuf', lambda S: get(S, at(S), 'BigAttrSet', 'attrbuf'), a.size), ('attrlist', lambda S: get(S, at(S), 'BigAttrSet', 'attrlist'), a.ln * sizeof('BigAttr'))]
        owned += [(f, lambda S, f=f: S.rd(B_(d, f), 8), (b.Nfile + 1) * w) for f, w, n in tabs]
        def distinct(S):
            os = [S.resolve(p(S))[0] for n, p, z in owned]
            return TRUE if None not in os and len(set(o.id for o in os)) == len(os) else FALSE
        def kept(base, R):
            m = sum(1 for oid, os in R.mem.items() if oid not in base.mem and os.alive and R.objs[oid].kind in ('heap', 'file'))
            return ('nothing else is kept', lambda S: TRUE if m == len(owned) else FALSE)
        def chk(base, R, mp):
            out = [('memory of its own: ' + n, own(p, z)) for n, p, z in owned] + [('no two tables share memory', distinct), kept(base, R)]
            out.append(('the name', lambda S: same_text(S, S.rd(B_(d, 'basename'), 8), S.cstr(b.nameo.base))))
            for f, w in (('nmemb', 4), ('size', 8), ('Nfile', 4), ('dirty', 4)):
                out.append(('the block: ' + f, lambda S, f=f, w=w: eq(S.rd(B_(d, f), w), S.rd(B_(src, f), w))))
            for j in range(8):
                out.append(('the type, character %d' % j, lambda S, j=j: eq(S.rd(B_(d, 'dtype') + j, 1), S.rd(B_(src, 'dtype') + j, 1))))
            if not b.meta:
                for f, w, n in tabs:
                    def q(S, f=f, w=w, n=n):
                        k = S.fresh('k', 0, MAXFILE)
                        S.assume(lt(k, n))
                        if f == 'fchecksum' and self.nosums:
                            return eq(S.rd(S.rd(B_(d, f), 8) + k * w, w), 0)
                        return eq(S.rd(S.rd(B_(d, f), 8) + k * w, w), S.rd(S.rd(B_(src, f), 8) + k * w, w))
                    out.append(('the table ' + f, q))
            for f in ('dirty', 'bufused', 'bufsize', 'listused', 'listsize'):
                out.append(('the attributes: ' + f, lambda S, f=f: eq(get(S, at(S), 'BigAttrSet', f), get(S, b.ao.base, 'BigAttrSet', f))))
            def k_(S):
                k = S.fresh('k', 0, ATTRS)
                S.assume(lt(k, a.n))
                return k
            lst = lambda S: get(S, at(S), 'BigAttrSet', 'attrlist')
            out.append(('attribute: members', lambda S: (lambda k: eq(S.rd(AT(lst(S), k, 'nmemb'), 4), a.nmemb(k)))(k_(S))))
            for j in range(8):
                out.append(('attribute: type, character %d' % j, lambda S, j=j: (lambda k: eq(S.rd(AT(lst(S), k, 'dtype') + j, 1), a.dt(k, j)))(k_(S))))
            for f in ('name', 'data'):
                out.append(('attribute: its %s is at its place in the new buffer' % f, lambda S, f=f: (lambda k: eq(S.rd(AT(lst(S), k, f), 8), get(S, at(S), 'BigAttrSet', 'attrbuf') + a.off(f, k)))(k_(S))))
            def byte(S):
                j = S.fresh('j', 0, ABYTES)
                S.assume(lt(j, a.used))
                return eq(S.rd(get(S, at(S), 'BigAttrSet', 'attrbuf') + j, 1), a.byte(j))
            out.append(('every byte of names and data', byte))
            return out
        e.check = chk
        return e

def put_byte(S, p, v):
    o, off = S.resolve(p)
    S.push(o, ('W', off, C(1), v))
