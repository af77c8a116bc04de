"""P13: record types and record buffers; P14: record input and output over the contracts of blocks."""
from .term import *
from .exec import *
from .exec import read_log
from .contract import *
from .world import *
from .specs_array import A_, ArrayInit
from .specs_seek import m_raise, RAISE

RT = lambda p, f: fld(p, 'BigRecordType', f)
MEMB = 1 << 20
def FSZ():
    return sizeof('BigRecordField')

def field_reader(tag, rt):
    """fields of an arbitrary record type: entry k has name, type characters, members and layout of its own"""
    lay = {}
    for nm, w, lo, hi in (('name', 8, 1, 1 << 62), ('nmemb', 4, 0, MEMB), ('offset', 4, 0, (1 << 31) - 1), ('elsize', 4, 0, 1 << 24)):
        lay[fo('BigRecordField', nm)] = (nm, w, lo, hi)
    d0, dn = fo('BigRecordField', 'dtype'), fs('BigRecordField', 'dtype')
    def rd(S, off, n):
        sz = C(FSZ())
        k = fdivp(off, sz)
        r = off - k * FSZ()
        if not r.is_const():
            raise Unsupported('access inside a field at an unknown place')
        r = r.cval()
        if r in lay and lay[r][1] == n:
            nm, w, lo, hi = lay[r]
            if nm == 'offset' and rt.info.get('prefix'):
                return rt.info['prefix'](k)
            v = app('f%s_%s' % (nm, tag), k, lo=lo, hi=hi)
            if nm == 'nmemb' and rt.info.get('lemma') and len(ATOMS[atom_id(v)].extra) == 0:
                define(v, rt.info['lemma'](k))
            return v
        if n == 1 and d0 <= r < d0 + dn:
            return app('fdtype_%s' % tag, k, C(r - d0), lo=-128, hi=127)
        if n == 1:
            for o in lay:
                if o <= r < o + lay[o][1]:
                    nm, w, lo, hi = lay[o]
                    return byte_of(app('f%s_%s' % (nm, tag), k, lo=lo, hi=hi), r - o, w)
            return app('fpad_%s' % tag, k, C(r), lo=-128, hi=127)
        return join_bytes(*[rd(S, off + j, 1) for j in range(n)])
    return rd

class RType:
    """an arbitrary record type; with complete=True one that big_record_type_complete has laid out"""
    def __init__(self, S, tag='rt', complete=False, const=False):
        self.tag = tag
        self.o = obj(S, tag, sizeof('BigRecordType'), const=const)
        self.p = self.o.base
        self.n = var('nfield_' + tag, 0, (1 << 30))
        self.fields = obj(S, tag + '.fields', self.n * FSZ(), reader=field_reader(tag, self.o), const=const)
        put(S, self.p, 'BigRecordType', 'fields', self.fields.base)
        put(S, self.p, 'BigRecordType', 'nfield', self.n)
        if not complete:
            put(S, self.p, 'BigRecordType', 'itemsize', var('itemsize_' + tag, 0, (1 << 31) - 1))
        else:
            self.body = self.fwidth(Poly.atom(PLACE))
            put(S, self.p, 'BigRecordType', 'itemsize', self.prefix(self.n))
            self.o.info['prefix'] = self.prefix
            self.o.info['lemma'] = lambda k: imp(and_(ge(k, 0), lt(k, self.n)), and_(le(self.fwidth(k), self.prefix(self.n)), le(self.prefix(k) + self.fwidth(k), self.prefix(self.n))))
            S.assume(le(self.prefix(self.n), (1 << 31) - 1))
        self.o.info['rtype'] = self
    def f(self, nm, k, lo=0, hi=None):
        hi = {'nmemb': MEMB, 'elsize': 1 << 24, 'offset': (1 << 31) - 1, 'name': 1 << 62}[nm] if hi is None else hi
        return app('f%s_%s' % (nm, self.tag), k, lo=1 if nm == 'name' else lo, hi=hi)
    def fwidth(self, k):
        return self.f('elsize', k) * self.f('nmemb', k)
    def prefix(self, k):
        return sum_(self.body, P(k))

def fget(S, flds, k, nm):
    return S.rd(flds + P(k) * FSZ() + fo('BigRecordField', nm), fs('BigRecordField', nm))

def dt_chars(S, p):
    return [S.rd(p + j, 1) for j in range(8)]

class ItemsizeAny(Contract):
    """width of a type string, a function of its eight characters (the function itself is decided under P20)"""
    name = 'big_file_dtype_itemsize'
    def apply(self, ex, S, args):
        return app('itemsize', *dt_chars(S, args[0]), lo=0, hi=1 << 24)

class Complete(Contract):
    name = 'big_record_type_complete'
    mods = ('bigfile', 'record')
    def uses(self):
        return {'big_file_dtype_itemsize': ItemsizeAny()}
    def models(self):
        return RAISE
    def setup(self, ex, S, case):
        r = RType(S)
        return [r.p]
    def spec(self, S, args):
        p, = args
        o, off = S.resolve(p)
        r = o.info['rtype']
        isz = lambda k: app('itemsize', *[app('fdtype_' + r.tag, k, C(j), lo=-128, hi=127) for j in range(8)], lo=0, hi=1 << 24)
        body = isz(Poly.atom(PLACE)) * r.f('nmemb', Poly.atom(PLACE))
        pre = lambda k: sum_(body, P(k))
        # lemma: a term of a sum of non-negative terms is at most the sum
        r.o.info['lemma'] = lambda k: imp(and_(ge(k, 0), lt(k, r.n)), le(subst(body, {PLACE.id: k}), pre(r.n)))
        S.require('the record is narrower than 2^31 bytes', le(pre(r.n), (1 << 31) - 1))
        e = Effect()
        e.cell(RT(p, 'itemsize'), 8, pre(r.n), 'the record width is the total of the field widths')
        e.cell(RT(p, 'nfield'), 8, r.n, 'the number of fields is unchanged')
        e.allow.append((r.fields.base, r.n * FSZ()))
        def chk(base, R, mp):
            def each(nm, want):
                def q(S):
                    k = S.fresh('k', 0, 1 << 30)
                    S.assume(lt(k, r.n))
                    return eq(fget(S, r.fields.base, k, nm), want(k))
                return q
            out = [('field k starts after fields 0..k-1', each('offset', pre)),
                   ('element width is that of the type', each('elsize', isz)),
                   ('members are unchanged', each('nmemb', lambda k: r.f('nmemb', k))),
                   ('names are unchanged', each('name', lambda k: r.f('name', k)))]
            def dt(S):
                k = S.fresh('k', 0, 1 << 30)
                S.assume(lt(k, r.n))
                return and_(*[eq(S.rd(r.fields.base + k * FSZ() + fo('BigRecordField', 'dtype') + j, 1), app('fdtype_' + r.tag, k, C(j), lo=-128, hi=127)) for j in range(8)])
            return out + [('types are unchanged', dt)]
        e.check = chk
        return e

class Field1(Contract):
    """big_record_set / big_record_get: exactly the bytes of one field of one record"""
    mods = ('bigfile', 'record')
    def models(self):
        return RAISE
    def setup(self, ex, S, case):
        r = RType(S, complete=True, const=True)
        n = var('nrec', 0, 1 << 40)
        W = r.prefix(r.n)
        i = var('i', 0, 1 << 40); c = var('c', 0, 1 << 30)
        S.assume(lt(i, n)); S.assume(lt(c, r.n))
        S.assume(le(n * W, 1 << 62))
        f = lambda t: (lambda S, off, size: app('mem_' + t, off, lo=-128, hi=127) if size == 1 else join_bytes(*[app('mem_' + t, off + j, lo=-128, hi=127) for j in range(size)]))
        buf = obj(S, 'buf', n * W, reader=f('buf'), const=not self.sets)
        data = obj(S, 'data', r.fwidth(c), reader=f('data'), const=self.sets)
        return [r.p, buf.base, i, c, data.base]
    def spec(self, S, args):
        rt, buf, i, c, data = args
        flds = get(S, rt, 'BigRecordType', 'fields')
        W = get(S, rt, 'BigRecordType', 'itemsize')
        n = get(S, rt, 'BigRecordType', 'nfield')
        S.require('field of the type', and_(ge(c, 0), lt(c, n)))
        S.require('record of the buffer', ge(i, 0))
        r = S.resolve(rt)[0].info['rtype']
        off = r.prefix(c); w = r.fwidth(c)
        e = Effect()
        at = buf + i * W + off
        if self.sets:
            so, soff = S.resolve(data)
            bo, boff = S.resolve(at)
            log = S.mem[so.id].log
            e.region(at, w, lambda S, o, n, so=so, log=log: read_log(S, so, log, soff + o - boff, n), 1, 'the field of the record holds the data')
            def others(S):
                i2 = S.fresh('i', 0, 1 << 40); c2 = S.fresh('c', 0, 1 << 30); x = S.fresh('x', 0, 1 << 40)
                S.assume(and_(lt(c2, n), lt(x, r.fwidth(c2))))
                S.assume(or_(ne(i2, i), ne(c2, c)))
                # lemma: fields end inside the record; the earlier of two fields ends before the later
                at2 = buf + i2 * W + r.prefix(c2) + x
                return eq(S.rd(at2, 1), base0.rd(at2, 1))
            base0 = S.copy()
            e.check = lambda base, R, mp: [('other fields and other records keep their bytes', others)]
        else:
            do, doff = S.resolve(data)
            bo, boff = S.resolve(at)
            log = S.mem[bo.id].log
            e.region(data, w, lambda S, o, n: read_log(S, bo, log, boff + o - doff, n), 1, 'the data is the field of the record')
        return e

class RecordSet(Field1):
    name = 'big_record_set'
    sets = True
class RecordGet(Field1):
    name = 'big_record_get'
    sets = False

class ViewField(Contract):
    name = 'big_record_view_field'
    mods = ('bigfile', 'record')
    TYPES = [b'f8', b'>i4', b'|S3', b'c16']
    def models(self):
        return RAISE
    def uses(self):
        return {'big_array_init': ArrayInit()}
    def cases(self):
        return [t.decode() for t in self.TYPES]
    def setup(self, ex, S, case):
        r = RType(S, complete=True)
        i = var('i', 0, 1 << 30)
        S.assume(lt(i, r.n))
        puts(S, r.fields.base + i * FSZ() + fo('BigRecordField', 'dtype'), case.encode(), 8)
        a = obj(S, 'array', sizeof('BigArray'))
        n = var('size', 0, 1 << 40)
        buf = obj(S, 'buf', None)
        return [r.p, i, a.base, n, buf.base]
    def spec(self, S, args):
        rt, i, a, size, buf = args
        flds = get(S, rt, 'BigRecordType', 'fields')
        S.require('field of the type', and_(ge(i, 0), lt(i, get(S, rt, 'BigRecordType', 'nfield'))))
        S.require('number of records', and_(ge(size, 0), le(size, 1 << 40)))
        W = get(S, rt, 'BigRecordType', 'itemsize')
        nm = fget(S, flds, i, 'nmemb')
        dims = obj(S, 'dims', 16, 'ghost'); st = obj(S, 'strides', 16, 'ghost')
        for o, j, v in ((dims, 0, size), (dims, 8, nm), (st, 0, W), (st, 8, fget(S, flds, i, 'elsize'))):
            S.push(o, ('W', C(j), C(8), v))
        return ArrayInit().spec(S, [a, buf + fget(S, flds, i, 'offset'), flds + i * FSZ() + fo('BigRecordField', 'dtype'), C(2), dims.base, st.base])

from .specs_path import Strdup, sstr, same_text, new_string

class TypeSet(Contract):
    """big_record_type_set: the field of that index, and no other"""
    name = 'big_record_type_set'
    mods = ('bigfile', 'record')
    def models(self):
        return RAISE
    def uses(self):
        return {'_strdup': Strdup()}
    TYPES = [0, 2, 7, 8]
    def cases(self):
        return ['%s, type of %d characters' % (w, n) for w in ('existing field', 'existing field without a name', 'new field', 'first field') for n in self.TYPES]
    def setup(self, ex, S, case):
        r = RType(S)
        i = var('i', 0, 1 << 30)
        if case.startswith('first'):
            put(S, r.p, 'BigRecordType', 'fields', 0)
            put(S, r.p, 'BigRecordType', 'nfield', 0)
        elif case.startswith('existing'):
            S.assume(lt(i, r.n))
            na = fo('BigRecordField', 'name')
            nm = sstr(S, 'oldname')
            S.push(r.fields, ('W', i * FSZ() + na, C(8), nm.base if 'without' not in case else ZERO))
        else:
            S.assume(ge(i, r.n))
        name = sstr(S, 'name')
        S.assume(lt(name.info['text'][1], 8192))
        L = int(case.split()[-2])
        dt = obj(S, 'dtype', L + 1, const=True)
        for j in range(L):
            c = var('c%d' % j, -128, 127)
            S.assume(ne(c, 0))
            S.push(dt, ('W', C(j), C(1), c))
        S.push(dt, ('W', C(L), C(1), ZERO))
        return [r.p, i, name.base, dt.base, var('nmemb', 0, MEMB)]
    def spec(self, S, args):
        rt, i, name, dt, nm = args
        r = S.resolve(rt)[0].info['rtype']
        S.require('index of a field', ge(i, 0))
        n = get(S, rt, 'BigRecordType', 'nfield')
        f0 = get(S, rt, 'BigRecordType', 'fields')
        t = S.cstr(name)
        e = Effect(anyret=True)
        e.leak_ok = True
        new = S.decide(ge(i, n))
        FO = lambda f: fo('BigRecordField', f)
        cs = []
        for j in range(8):
            c = S.rd(dt + j, 1)
            if S.decide(eq(c, 0)):
                break
            cs.append(c)
        if new:
            if not f0.is_const():
                e.frees.append(S.resolve(f0)[0])
            e.allow.append((RT(rt, 'fields'), C(8)))
            e.cell(RT(rt, 'nfield'), 8, i + 1, 'the number of fields includes the new one')
        else:
            old = S.rd(f0 + i * FSZ() + FO('name'), 8)
            oo, _ = S.resolve(old)
            if oo is not None:
                e.frees.append(oo)
            e.allow.append((f0 + i * FSZ(), C(FSZ())))
        def chk(base, R, mp):
            flds = R.rd(RT(rt, 'fields'), 8)
            n2 = i + 1 if new else n
            def where(S):
                o, off = S.resolve(flds)
                if o is None or not S.alive(o) or off != 0 or o.kind != 'heap':
                    return FALSE
                return eq(o.size, n2 * FSZ()) if new else TRUE
            def kept(S):
                k = S.fresh('k', 0, 1 << 30)
                S.assume(and_(lt(k, n), ne(k, i)))
                b = S.view(base)
                return and_(*[eq(fget(S, flds, k, f), r.f(f, k)) for f in ('name', 'nmemb', 'offset', 'elsize')] +
                            [eq(S.rd(flds + k * FSZ() + FO('dtype') + j, 1), app('fdtype_' + r.tag, k, C(j), lo=-128, hi=127)) for j in range(8)])
            def blank(S):
                k = S.fresh('k', 0, 1 << 30)
                S.assume(and_(ge(k, n), lt(k, i)))
                return and_(*[eq(fget(S, flds, k, f), 0) for f in ('name', 'nmemb', 'offset', 'elsize')])
            def nameq(S):
                p = fget(S, flds, i, 'name')
                o, off = S.resolve(p)
                if o is None or not S.alive(o) or off != 0 or o.id in S.ex.frame_old:
                    return FALSE
                return same_text(S, p, t)
            def typeq(S):
                return and_(*[eq(S.rd(flds + i * FSZ() + FO('dtype') + j, 1), cs[j] if j < len(cs) else ZERO) for j in range(8)])
            return [('the table holds the fields', where), ('all other fields keep their definitions', kept), ('skipped fields are blank', blank),
                    ('the field has a copy of the name', nameq), ('the field has the type', typeq),
                    ('the field has the members', lambda S: eq(fget(S, flds, i, 'nmemb'), nm)),
                    ('nothing else is kept', lambda S: TRUE if sum(1 for oid, os in R.mem.items() if oid not in base.mem and os.alive and R.objs[oid].kind == 'heap') == (2 if new else 1) else FALSE)]
        e.check = chk
        return e

class TypeAdd(TypeSet):
    """big_record_type_add: a field after the existing ones (the body of big_record_type_set is executed)"""
    name = 'big_record_type_add'
    def cases(self):
        return ['%s field, type of %d characters' % (w, n) for w in ('new', 'first') for n in self.TYPES]
    def setup(self, ex, S, case):
        a = TypeSet.setup(self, ex, S, case)
        return [a[0]] + a[2:]
    def spec(self, S, args):
        rt = args[0]
        n = get(S, rt, 'BigRecordType', 'nfield')
        e = TypeSet.spec(self, S, [rt, n] + args[1:])
        e.anyret = False
        e.ret = n
        return e

from .models import MODELS
class TypeClear(Contract):
    """big_record_type_clear: every name and the table are released once"""
    name = 'big_record_type_clear'
    mods = ('bigfile', 'record')
    def models(self):
        def m_free(ex, S, a):
            p = a[0]
            for m, c in p.t.items():
                at = ATOMS[m[0]] if len(m) == 1 else None
                if at is not None and at.kind == 'app' and at.data[0] == 'fname_rt' and len(p.t) == 1 and c == 1:
                    k = P(at.data[1][0])
                    S.require('a name is released once', eq(S.read(self.rel, k * 8, 8), 0))
                    S.push(self.rel, ('W', k * 8, C(8), ONE))
                    return None
            return MODELS['free'](ex, S, a)
        return dict(RAISE, free=m_free)
    def setup(self, ex, S, case):
        r = RType(S)
        self.rel = obj(S, 'released names', r.n * 8, 'ghost', reader=lambda S, off, n: ZERO)
        return [r.p]
    def spec(self, S, args):
        rt, = args
        r = S.resolve(rt)[0].info['rtype']
        e = Effect()
        e.cell(RT(rt, 'nfield'), 8, ZERO, 'no field remains')
        e.cell(RT(rt, 'fields'), 8, ZERO, 'no table remains')
        e.frees.append(r.fields)
        e.allow.append((self.rel.base, r.n * 8))
        def q(S):
            k = S.fresh('k', 0, 1 << 30)
            S.assume(lt(k, r.n))
            return eq(S.read(self.rel, k * 8, 8), 1)
        e.check = lambda base, R, mp: [('every name is released', q)]
        return e

# ------------------------------------------------------------------ P14
class Events:
    """ghost table of calls: entry j holds the recorded words of the j-th call"""
    def __init__(self, S, tag, words):
        self.words = words
        self.o = obj(S, tag, 1 << 60, 'ghost', reader=lambda S, off, n: app('none_' + tag, off))
        self.n = obj(S, 'number of ' + tag, 8, 'ghost')
        S.push(self.n, ('W', ZERO, C(8), ZERO))
        self.o.info['frame_free'] = self.n.info['frame_free'] = True
    def add(self, S, vals):
        c = S.read(self.n, ZERO, 8)
        for j, v in enumerate(vals):
            S.push(self.o, ('W', c * (8 * self.words) + 8 * j, C(8), P(v)))
        S.push(self.n, ('W', ZERO, C(8), c + 1))
    def count(self, S):
        return S.read(self.n, ZERO, 8)
    def get(self, S, k, j):
        return S.read(self.o, P(k) * (8 * self.words) + 8 * j, 8)

def failing(S, what):
    if S.nondet(what):
        S.ghost['fault'] = ONE
        S.ghost['err'] = ONE
        return True
    return False

class RecIO(Contract):
    mods = ('bigfile', 'record')
    def models(self):
        return dict(RAISE, **{k: getattr(self, 'm_' + k) for k in
            ('big_record_view_field', 'big_file_open_block', 'big_file_create_block', 'big_block_seek', 'big_block_write', 'big_block_read', 'big_block_close', 'big_block_grow')})
    # assumed here, decided under P13, P01-P03, P07, P08
    def opened(self, S, blk_, name):
        put_(S, fld(blk_, 'BigBlock', 'basename'), name)
        S.push(self.open, ('W', ZERO, C(8), S.read(self.open, ZERO, 8) + 1))
    def block(self, S, b):
        nm = S.rd(fld(b, 'BigBlock', 'basename'), 8)
        S.require('the block is open', ne(nm, 0))
        return nm
    def m_big_record_view_field(self, ex, S, a):
        rt, i, arr, size, buf = a
        S.require('field of the type', and_(ge(i, 0), lt(i, get(S, rt, 'BigRecordType', 'nfield'))))
        if failing(S, 'view_fails'):
            return C(-1)
        flds = get(S, rt, 'BigRecordType', 'fields')
        put_(S, A_(arr, 'ndim'), 2, 4)
        for f, vs in (('dims', [size, fget(S, flds, i, 'nmemb')]), ('strides', [get(S, rt, 'BigRecordType', 'itemsize'), fget(S, flds, i, 'elsize')])):
            for j, v in enumerate(vs):
                put_(S, A_(arr, f) + 8 * j, v)
        put_(S, A_(arr, 'size'), size * fget(S, flds, i, 'nmemb'))
        put_(S, A_(arr, 'data'), buf + fget(S, flds, i, 'offset'))
        return ZERO
    def m_big_file_open_block(self, ex, S, a):
        bf, b, name = a
        S.require('the file is the one given', eq(bf, self.bf))
        if failing(S, 'open_fails'):
            return C(-1)
        self.opened(S, b, name)
        return ZERO
    def m_big_file_create_block(self, ex, S, a):
        bf, b, name, dt, nm, nf, fz = a
        S.require('the file is the one given', eq(bf, self.bf))
        if failing(S, 'create_fails'):
            return C(-1)
        self.created.add(S, [name, dt, nm, nf, fz])
        self.opened(S, b, name)
        return ZERO
    def m_big_block_grow(self, ex, S, a):
        b, nf, fz = a
        nm = self.block(S, b)
        if failing(S, 'grow_fails'):
            return C(-1)
        self.grown.add(S, [nm, nf, fz])
        return ZERO
    def m_big_block_seek(self, ex, S, a):
        b, p, off = a
        self.block(S, b)
        if failing(S, 'seek_fails'):
            return C(-1)
        put_(S, fld(p, 'BigBlockPtr', 'aoffset'), off)
        put_(S, fld(p, 'BigBlockPtr', 'fileid'), S.fresh('fileid', 0, MAXFILE), 4)
        put_(S, fld(p, 'BigBlockPtr', 'roffset'), S.fresh('roffset', 0, MAXROWS))
        return ZERO
    def transfer(self, S, a, ev):
        b, p, arr = a
        nm = self.block(S, b)
        if failing(S, 'transfer_fails'):
            return C(-1)
        ev.add(S, [nm, S.rd(fld(p, 'BigBlockPtr', 'aoffset'), 8), S.rd(A_(arr, 'data'), 8)] + [S.rd(A_(arr, f) + 8 * j, 8) for f in ('dims', 'strides') for j in (0, 1)])
        for f, n in (('aoffset', 8), ('roffset', 8), ('fileid', 4)):
            put_(S, fld(p, 'BigBlockPtr', f), S.fresh(f, 0, MAXFILE), n)
        return ZERO
    def m_big_block_write(self, ex, S, a):
        return self.transfer(S, a, self.written)
    def m_big_block_read(self, ex, S, a):
        return self.transfer(S, a, self.fetched)
    def m_big_block_close(self, ex, S, a):
        self.block(S, a[0])
        put_(S, fld(a[0], 'BigBlock', 'basename'), 0)
        S.push(self.open, ('W', ZERO, C(8), S.read(self.open, ZERO, 8) - 1))
        if failing(S, 'close_fails'):
            return C(-1)
        return ZERO
    # ----
    def ghosts(self, S):
        self.open = obj(S, 'open blocks', 8, 'ghost')
        self.open.info['frame_free'] = True
        S.push(self.open, ('W', ZERO, C(8), ZERO))
        self.created = Events(S, 'created blocks', 5)
        self.grown = Events(S, 'grown blocks', 3)
        self.written = Events(S, 'written fields', 7)
        self.fetched = Events(S, 'read fields', 7)
        bf = obj(S, 'bf', sizeof('BigFile'), const=True)
        self.bf = bf.base
    def outcome(self, S, args, r, want):
        """want: {Events: k -> words}"""
        good = Effect(ret=ZERO); bad = Effect(ret=C(-1))
        bad.ghosts['err'] = ONE
        bad.ghosts['fault'] = ONE
        good.ghosts['fault'] = ZERO
        closed = ('every block that was opened is closed', lambda S: eq(S.read(self.open, ZERO, 8), 0))
        def ok(base, R, mp):
            out = [closed]
            for ev in (self.created, self.grown, self.written, self.fetched):
                w = want.get(ev)
                if w is None:
                    out.append(('no other operation on blocks', lambda S, ev=ev: eq(ev.count(S), 0)))
                    continue
                out.append(('one operation per field', lambda S, ev=ev: eq(ev.count(S), r.n)))
                for j, nm in enumerate(self.NAMES[ev.words]):
                    def q(S, j=j, ev=ev, w=w):
                        k = S.fresh('k', 0, 1 << 30)
                        S.assume(lt(k, r.n))
                        return eq(ev.get(S, k, j), w(k)[j])
                    out.append(('operation on field k: ' + nm, q))
            return out
        good.check = ok
        bad.check = lambda base, R, mp: [closed]
        e = Effect()
        e.alts = [('done', lambda x: eq(x, 0), good), ('failed', lambda x: eq(x, -1), bad)]
        return e
    NAMES = {7: ['name of the block', 'first row', 'address of the field in record 0', 'number of records', 'members', 'distance of records', 'distance of members'],
             5: ['name of the block', 'type', 'members', 'number of files', 'rows of the files'], 3: ['name of the block', 'number of files', 'rows of the files']}

def put_(S, p, v, n=8):
    """write by a callee"""
    o, off = S.access(p, C(n), 'write')
    S.ex.note_write(S, o, off, C(n))
    S.push(o, ('W', off, C(n), P(v)))

class WriteRecords(RecIO):
    name = 'big_file_write_records'
    def setup(self, ex, S, case):
        self.ghosts(S)
        r = RType(S, complete=True, const=True)
        buf = obj(S, 'buf', None)
        return [self.bf, r.p, var('offset', -MAXROWS, MAXROWS), var('size', 0, 1 << 40), buf.base]
    def spec(self, S, args):
        bf, rt, off, size, buf = args
        r = S.resolve(rt)[0].info['rtype']
        W = lambda k: [r.f('name', k), off, buf + r.prefix(k), size, r.f('nmemb', k), r.prefix(r.n), r.f('elsize', k)]
        return self.outcome(S, args, r, {self.events(): W})
    def events(self):
        return self.written

class ReadRecords(WriteRecords):
    name = 'big_file_read_records'
    def events(self):
        return self.fetched

class CreateRecords(RecIO):
    name = 'big_file_create_records'
    def cases(self):
        return ['mode of %d characters' % n for n in range(5)]
    def setup(self, ex, S, case):
        self.ghosts(S)
        r = RType(S, complete=True, const=True)
        L = int(case.split()[2])
        mo = obj(S, 'mode', L + 1, const=True)
        for j in range(L):
            c = var('m%d' % j, -128, 127)
            S.assume(ne(c, 0))
            S.push(mo, ('W', C(j), C(1), c))
        S.push(mo, ('W', C(L), C(1), ZERO))
        fz = obj(S, 'fsize', None, const=True)
        return [self.bf, r.p, mo.base, var('Nfile', 0, MAXFILE), fz.base]
    def spec(self, S, args):
        bf, rt, mode, nf, fz = args
        r = S.resolve(rt)[0].info['rtype']
        cs = []
        while True:
            c = S.rd(mode + len(cs), 1)
            if S.decide(eq(c, 0)):
                break
            cs.append(c)
        is_ = lambda t: len(cs) == 2 and S.decide(and_(eq(cs[0], ord(t[0])), eq(cs[1], ord(t[1]))))
        d0 = r.fields.base + fo('BigRecordField', 'dtype')
        if is_('w+'):
            return self.outcome(S, args, r, {self.created: lambda k: [r.f('name', k), d0 + k * FSZ(), r.f('nmemb', k), nf, fz]})
        if is_('a+'):
            return self.outcome(S, args, r, {self.grown: lambda k: [r.f('name', k), nf, fz]})
        if S.decide(eq(r.n, 0)):
            return Effect(ret=ZERO)
        e = Effect(ret=C(-1))
        e.ghosts['err'] = ONE
        e.check = lambda base, R, mp: [('an unknown mode touches no block', lambda S: and_(eq(self.created.count(S), 0), eq(self.grown.count(S), 0), eq(S.read(self.open, ZERO, 8), 0)))]
        return e

# ------------------------------------------------------------------ collective forms
class Collective:
    """the same on every process: the calls on blocks are the collective ones, on the communicator given (they agree
    on their result, P16); nothing here depends on the rank, which the code has no way to ask for (no such call is allowed)"""
    mods = ('mpi', 'bigfile', 'record')
    def models(self):
        def on(f, n):
            def g(ex, S, a):
                S.require('the communicator given', eq(a[-1], self.comm))
                if n == 2:
                    S.require('the concurrency given', eq(a[-2], self.conc))
                return f(ex, S, a[:-n])
            return g
        m = dict(RAISE, big_record_view_field=self.m_big_record_view_field, big_block_seek=self.m_big_block_seek)
        for k, f in (('big_file_mpi_open_block', self.m_big_file_open_block), ('_big_file_mpi_create_block', self.m_big_file_create_block),
                     ('big_block_mpi_grow', self.m_big_block_grow), ('big_block_mpi_close', self.m_big_block_close)):
            m[k] = on(f, 1)
        m['big_block_mpi_write'] = on(self.m_big_block_write, 2)
        m['big_block_mpi_read'] = on(self.m_big_block_read, 2)
        return m
    def setup(self, ex, S, case):
        a = super().setup(ex, S, case)
        self.comm = obj(S, 'comm', 8).base
        self.conc = var('concurrency', -(1 << 31), (1 << 31) - 1)
        return a + ([self.conc] if self.takes_conc else []) + [self.comm]
    def spec(self, S, args):
        return super().spec(S, args[:-2] if self.takes_conc else args[:-1])
    takes_conc = True

class MpiWriteRecords(Collective, WriteRecords):
    name = 'big_file_mpi_write_records'
class MpiReadRecords(Collective, ReadRecords):
    name = 'big_file_mpi_read_records'
class MpiCreateRecords(Collective, CreateRecords):
    name = 'big_file_mpi_create_records'
    takes_conc = False
