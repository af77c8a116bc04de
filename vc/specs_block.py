"""P07, P08: creating, growing, flushing and opening blocks."""
import re
from .term import *
from .exec import *
from .exec import read_log
from .contract import *
from .world import *
from .specs_array import A_, Itemsize, Normalize, norm_bytes, width, dtype_of
from .specs_seek import m_raise, RAISE, blk
from .specs_record import Events, put_, failing

B_ = lambda p, f: fld(p, 'BigBlock', f)

class Tab:
    """caller's table of row counts"""
    def __init__(self, S, tag, n):
        self.fn = lambda k: app(tag, k, lo=0, hi=MAXROWS)
        self.o = obj(S, tag, P(n) * 8, reader=table(self.fn, 8), const=True)

def new_tables(e, bb, N, fz, ck, Nold=None):
    """the block has tables of its own for N files: rows fz(k), checksums ck(k), offsets their prefix sums"""
    body = fz(Poly.atom(PLACE))
    pre = lambda k: sum_(body, P(k))
    def ptr(S, f, size):
        p = S.rd(B_(bb, f), 8)
        o, off = S.resolve(p)
        if o is None or not S.alive(o) or o.kind != 'heap' or o.id in S.ex.frame_old or off != 0:
            return None, p
        return o, p
    def own(f, w):
        def q(S):
            o, p = ptr(S, f, w)
            if o is None:
                return FALSE
            return ge(o.size, (N + 1) * w)      # one entry more than files, as packing copies them
        return q
    def each(f, w, want, incl=False):
        def q(S):
            o, p = ptr(S, f, w)
            if o is None:
                return FALSE
            k = S.fresh('k', 0, MAXFILE)
            S.assume(le(k, N) if incl else lt(k, N))
            v = S.rd(p + k * w, w)
            if not incl:
                # where the table is stitched together
                if Nold is not None:
                    S.decide(lt(k, Nold))
            return eq(v, want(k))
        return q
    out = [('tables of their own: ' + f, own(f, w)) for f, w in (('fsize', 8), ('foffset', 8), ('fchecksum', 4))]
    out.append(('rows of every file', each('fsize', 8, fz)))
    out.append(('checksum of every file', each('fchecksum', 4, ck)))
    out.append(('first row of every file', each('foffset', 8, pre, True)))
    e.cell(B_(bb, 'size'), 8, pre(N), 'size is the total of the files')
    e.cell(B_(bb, 'Nfile'), 4, N, 'number of files')
    for f in ('fsize', 'foffset', 'fchecksum'):
        e.allow.append((B_(bb, f), C(8)))
    return out

class GrowInternal(Contract):
    name = '_big_block_grow_internal'
    def models(self):
        return RAISE
    def cases(self):
        return ['block with files', 'block without files']
    def setup(self, ex, S, case):
        b = Block(S, meta=(case != 'block with files'))
        n = var('Nfile_grow', 0, MAXFILE)
        t = Tab(S, 'fsize_grow', n)
        return [b.p, n, t.o.base]
    def grown(self, S, args):
        bb, n, fg = args
        b = blk(S, bb)
        Nold = b.Nfile
        to, _ = S.resolve(fg)
        g = lambda k: S.read(to, k * 8, 8)
        if b.meta:
            fz = lambda k: app('fsize_grow', k, lo=0, hi=MAXROWS)
            ck = lambda k: ZERO
        else:
            fz = lambda k: ite(lt(k, Nold), b.fz(k), app('fsize_grow', k - Nold, lo=0, hi=MAXROWS))
            ck = lambda k: ite(lt(k, Nold), b.ck(k), ZERO)
        return b, Nold, fz, ck
    def spec(self, S, args):
        bb, n, fg = args
        b, Nold, fz, ck = self.grown(S, args)
        N = Nold + n
        S.require('number of files', and_(ge(n, 0), le(N, MAXFILE)))
        body = fz(Poly.atom(PLACE))
        S.require('total number of rows', le(sum_(body, N), MAXROWS))
        e = Effect(ret=ZERO)
        chk = new_tables(e, bb, N, fz, ck, Nold if not b.meta else None)
        e.cell(B_(bb, 'dirty'), 4, ONE, 'the header is to be saved')
        e.leak_ok = True
        if not b.meta:
            e.frees += [b.fsize, b.foffset, b.fchecksum]
        e.check = lambda base, R, mp: chk
        return e

def m_create_open(self):
    """_big_file_open_a_file as the creators use it: every file opened is recorded"""
    def m(ex, S, a):
        base, fid, mode, rs = a
        o, off = S.resolve(base)
        if o is None:
            raise Unsupported('file of an unknown block')
        S.require('the block name is not released', TRUE if S.alive(o) else FALSE)
        if S.nondet('open_fails'):
            S.ghost['fault'] = ONE
            if S.decide(ne(rs, 0)):
                S.ghost['err'] = ONE
            return ZERO
        ps = S.cstr(mode)
        if ps is None or len(ps) != 1 or ps[0][0] != 'lit':
            raise Unsupported('file mode')
        self.made.add(S, [base, fid, ONE if ps[0][1][:1] == b'w' else ZERO])
        return S.alloc('FILE', C(8), 'file').base
    return m
def m_fclose_new(ex, S, a):
    o, off = S.resolve(a[0])
    if o is None or o.kind != 'file' or not S.alive(o):
        S.oblige('memory', 'fclose of something that is no open file', FALSE)
        raise PathEnd()
    S.free(o)
    if S.nondet('fclose_fails'):
        S.ghost['fault'] = ONE
        return C(-1)
    return ZERO

def made_files(ev, name, first, n):
    """exactly files first .. first+n-1 are opened, each truncated"""
    def q(S):
        j = S.fresh('j', 0, MAXFILE)
        S.assume(lt(j, n))
        return and_(eq(ev.get(S, j, 0), name(S)), eq(ev.get(S, j, 1), first + j), eq(ev.get(S, j, 2), 1))
    return [('as many files are created as asked for', lambda S: eq(ev.count(S), n)), ('each new file once, truncated; no other file', q)]

class GrowApply(GrowInternal):
    """call-site form of the proved contract"""
    def apply(self, ex, S, args):
        bb, n, fg = args
        b, Nold, fz, ck = self.grown(S, args)
        eff = self.spec(S, args)
        N = Nold + n
        body = fz(Poly.atom(PLACE))
        old = [S.resolve(S.rd(B_(bb, f), 8))[0] for f in ('fsize', 'foffset', 'fchecksum')]
        r = self.perform(S, eff)
        for f, w, fn in (('fsize', 8, fz), ('foffset', 8, lambda k: sum_(body, P(k))), ('fchecksum', 4, ck)):
            o = S.alloc('new ' + f, (N + 1) * w, 'heap')
            S.push(o, ('H', ZERO, (N + 1) * w, table(fn, w)))
            put_(S, B_(bb, f), o.base)
        return ZERO

class Grow(GrowInternal):
    name = 'big_block_grow'
    def uses(self):
        return {'_big_block_grow_internal': GrowApply()}
    def models(self):
        return dict(RAISE, _big_file_open_a_file=m_create_open(self), fclose=m_fclose_new)
    def setup(self, ex, S, case):
        self.made = Events(S, 'created files', 3)
        return GrowInternal.setup(self, ex, S, case)
    def spec(self, S, args):
        e0 = GrowInternal.spec(self, S, args)
        bb, n, fg = args
        b = blk(S, bb)
        name = get(S, bb, 'BigBlock', 'basename')
        base_check = e0.check
        import copy
        good = e0; good.anyret = True
        good.ghosts['fault'] = ZERO
        bad = Effect(ret=C(-1))
        bad.ghosts['err'] = ONE
        bad.ghosts['fault'] = ONE
        bad.frees = e0.frees
        bad.cells = list(e0.cells); bad.allow = list(e0.allow); bad.leak_ok = True
        good.check = lambda base, R, mp: base_check(base, R, mp) + made_files(self.made, lambda S: name, b.Nfile, n) + [no_handles(base, R)]
        bad.check = lambda base, R, mp: base_check(base, R, mp) + [no_handles(base, R)]
        e = Effect()
        e.alts = [('done', lambda r: eq(r, 0), good), ('failed', lambda r: eq(r, -1), bad)]
        return e

def no_handles(base, R):
    n = sum(1 for oid, os in R.mem.items() if oid not in base.mem and os.alive and R.objs[oid].kind == 'file')
    return ('no file handle is kept', lambda S: TRUE if n == 0 else FALSE)

# ------------------------------------------------------------------ headers
from .models import format_parts, need_cstr
from .exec import norm_parts
_SIG = {}
NARG = 5
def sig_of(key):
    return C(_SIG.setdefault(key, len(_SIG) + 1))

def line_words(ex, S, parts):
    """a line of text as a number for its fixed text and the values in it"""
    key, args = [], []
    for p in norm_parts(parts):
        if p[0] == 'lit':
            key.append(p[1])
        elif p[0] == 'id':
            key.append('text')
            args.append(p[1])
        else:
            m = re.match(r'^(0?)(\d*)(hh|h|ll|l|t|z|j)?([duiXx])$', p[1])
            if not m:
                raise Unsupported('format %s in a header' % p[1])
            w = 64 if m.group(3) in ('l', 'll', 't', 'z', 'j') else 32
            v = p[2]
            if m.group(4) in 'uXx':
                v = ex.to_unsigned(S, v, w)
            key.append('%' + m.group(1) + m.group(2) + ('d' if m.group(4) in 'diu' else m.group(4)))
            args.append(v)
    if len(args) > NARG - 1:
        raise Unsupported('long line')
    return [sig_of(tuple(key))] + args + [ZERO] * (NARG - 1 - len(args))

class Text:
    """ghost text file: the lines written so far"""
    def __init__(self, S, tag):
        self.ev = Events(S, tag, NARG)
        self.k = ('pending', tag)
        S.ghost[self.k] = ()
        GHOST_FREE.add('pending')
    def put(self, ex, S, parts):
        acc = list(S.ghost[self.k])
        for p in parts:
            if p[0] != 'lit':
                acc.append(p)
                continue
            b = p[1]
            while True:
                j = b.find(b'\n')
                if j < 0:
                    break
                acc.append(('lit', b[:j + 1]))
                self.ev.add(S, line_words(ex, S, acc))
                acc = []
                b = b[j + 1:]
            if b:
                acc.append(('lit', b))
        S.ghost[self.k] = norm_parts(acc) if acc else ()

def L_(t):
    return ('lit', t)

class Flush(Contract):
    """big_block_flush: the header holds every table entry, or failure is reported and nothing is marked saved"""
    name = 'big_block_flush'
    def cases(self):
        return ['block with files', 'block without files']
    def models(self):
        return dict(RAISE, **self.filemodels())
    def filemodels(self):
        def stream(S, p):
            o, off = S.resolve(p)
            if o is None or o.kind != 'file' or not S.alive(o):
                S.oblige('memory', 'output to something that is no open file', FALSE)
                raise PathEnd()
        def m_open(ex, S, a):
            base, fid, mode, rs = a
            S.require('the header of the block', and_(eq(base, self.b.nameo.base), eq(fid, -1)))
            if S.nondet('open_fails'):
                S.ghost['fault'] = ONE
                if S.decide(ne(rs, 0)):
                    S.ghost['err'] = ONE
                return ZERO
            m = S.cstr(mode)
            if m is None or len(m) != 1 or m[0][0] != 'lit':
                raise Unsupported('file mode')
            S.require('the header is written from its start', TRUE if m[0][1][:1] == b'w' else FALSE)
            S.ghost['opened'] = S.ghost['opened'] + 1
            return S.alloc('FILE', C(8), 'file').base
        def put(ex, S, f, parts):
            stream(S, f)
            if parts is None:
                raise Unsupported('unknown format')
            if S.nondet('print_fails'):
                S.ghost['fault'] = ONE
                S.ghost['spoiled'] = ONE
                return C(-1)
            self.text.put(ex, S, parts)
            return ONE
        def m_fprintf(ex, S, a):
            return put(ex, S, a[0], format_parts(ex, S, a[1], a[2:], keep=True))
        def m_fputs(ex, S, a):
            return put(ex, S, a[1], need_cstr(ex, S, a[0]))
        def m_fputc(ex, S, a):
            if not a[0].is_const():
                raise Unsupported('fputc')
            return put(ex, S, a[1], (L_(bytes([a[0].cval() & 255])),))
        def m_close(ex, S, a):
            stream(S, a[0])
            S.free(S.resolve(a[0])[0])
            if S.nondet('close_fails'):
                S.ghost['fault'] = ONE
                S.ghost['spoiled'] = ONE
                return C(-1)
            return ZERO
        def m_attr(ex, S, a):
            S.require('the attributes of the block', and_(eq(a[0], self.b.ao.base), eq(a[1], self.b.nameo.base)))
            S.ghost['attrs'] = S.ghost['attrs'] + 1
            if failing(S, 'attrs_fail'):
                return C(-1)
            S.ghost['attrs_saved'] = ONE
            return ZERO
        return dict(_big_file_open_a_file=m_open, fprintf=m_fprintf, fputs=m_fputs, fputc=m_fputc, putc=m_fputc, fclose=m_close, attrset_write_attr_set_v2=m_attr)
    def ghosts(self, S):
        self.text = Text(S, 'header')
        for k in ('opened', 'attrs', 'attrs_saved', 'spoiled'):
            S.ghost[k] = ZERO
        GHOST_FREE.update(('opened', 'attrs', 'attrs_saved', 'spoiled'))
    def setup(self, ex, S, case):
        b = self.b = Block(S, meta=(case == 'block without files'))
        self.ghosts(S)
        self.adirty = var('adirty', -(1 << 31), (1 << 31) - 1)
        put(S, b.ao.base, 'BigAttrSet', 'dirty', self.adirty)
        put(S, b.p, 'BigBlock', 'dirty', var('dirty_any', -(1 << 31), (1 << 31) - 1))
        # an arbitrary type string, kept in the eight characters of the block
        self.dtid = var('text_dtype')
        ln = app('strlen', self.dtid, lo=0, hi=1 << 30)
        S.assume(le(ln, 7))
        S.push(b.o, ('S', C(fo('BigBlock', 'dtype')), ln + 1, (('id', self.dtid),)))
        return [b.p]
    def lines(self, b):
        """the header, line by line"""
        fck = lambda k: b.ck(k) if not b.meta else ZERO
        def fold(s):
            r = s - fdivp(s, C(1 << 16)) * (1 << 16) + fdivp(s, C(1 << 16))
            return r - fdivp(r, C(1 << 16)) * (1 << 16) + fdivp(r, C(1 << 16))
        def row(ex, S, k):
            u = ex.to_unsigned(S, fck(k), 32)
            return [sig_of(('%06X', b': ', '%d', b' : ', '%d', b' : ', '%d', b'\n')), k, b.fz(k), u, fold(u)]
        return [[sig_of((b'DTYPE: ', 'text', b'\n')), self.dtid], [sig_of((b'NMEMB: ', '%d', b'\n')), b.nmemb], [sig_of((b'NFILE: ', '%d', b'\n')), b.Nfile]], row
    def complete(self, ex, b):
        head, row = self.lines(b)
        ev = self.text.ev
        out = [('the header is opened once', lambda S: eq(S.ghost['opened'], 1)),
               ('the header has a line for every file, and no other', lambda S: eq(ev.count(S), b.Nfile + 3) if S.ghost[self.text.k] == () else FALSE)]
        for j, nm in enumerate(('type', 'members', 'number of files')):
            out.append(('header: ' + nm, lambda S, j=j: and_(eq(ev.get(S, j, 0), head[j][0]), eq(ev.get(S, j, 1), head[j][1]))))
        if not b.meta:
            for j, nm in enumerate(('form', 'file number', 'rows', 'checksum', 'folded checksum')):
                def q(S, j=j):
                    k = S.fresh('k', 0, MAXFILE)
                    S.assume(lt(k, b.Nfile))
                    return eq(ev.get(S, k + 3, j), row(ex, S, k)[j])
                out.append(('header, line of every file: ' + nm, q))
        return out
    def spec(self, S, args):
        bb, = args
        b = blk(S, bb)
        d = get(S, bb, 'BigBlock', 'dirty')
        at = get(S, bb, 'BigBlock', 'attrset')
        ad = get(S, at, 'BigAttrSet', 'dirty')
        hd = S.decide(ne(d, 0))
        has = S.decide(ne(ad, 0))
        ex = S.ex
        good = Effect(anyret=True); bad = Effect(ret=C(-1))
        good.cell(B_(bb, 'dirty'), 4, ZERO, 'nothing of the header is left to save')
        good.cell(fld(at, 'BigAttrSet', 'dirty'), 4, ZERO, 'no attribute is left to save')
        good.ghosts['fault'] = ZERO
        bad.ghosts['fault'] = bad.ghosts['err'] = ONE
        untouched = ('a clean block does not touch its header', lambda S: eq(S.ghost['opened'], 0))
        def ok(base, R, mp):
            out = self.complete(ex, b) if hd else [untouched]
            out.append(('attributes are saved when they changed', lambda S: eq(S.ghost['attrs'], ONE if has else ZERO)))
            return out + [no_handles(base, R)]
        def ko(base, R, mp):
            out = [no_handles(base, R)]
            if hd:
                # marked saved only when it is
                done = lambda S: eq(S.rd(B_(bb, 'dirty'), 4), d)
                for n, q in self.complete(ex, b) + [('no write failed', lambda S: eq(S.ghost['spoiled'], 0))]:
                    def qq(S, q=q):
                        if S.decide(eq(S.rd(B_(bb, 'dirty'), 4), d)):
                            return TRUE
                        return q(S)
                    out.append(('after a failure, marked saved only if: ' + n, qq))
            else:
                out.append(untouched)
                out.append(('a clean block stays clean', lambda S: eq(S.rd(B_(bb, 'dirty'), 4), 0)))
            out.append(('unsaved attributes stay marked', lambda S: or_(eq(S.rd(fld(at, 'BigAttrSet', 'dirty'), 4), ad), eq(S.ghost['attrs_saved'], 1))))
            return out
        bad.allow += [(B_(bb, 'dirty'), C(4)), (fld(at, 'BigAttrSet', 'dirty'), C(4))]
        good.check = ok; bad.check = ko
        e = Effect()
        e.alts = [('saved', lambda r: eq(r, 0), good), ('failed', lambda r: ne(r, 0), bad)]
        return e

# ------------------------------------------------------------------ creating
from .specs_path import sstr, same_text, PathJoin
from .specs_path import Strdup
from .loops import Blob
from .models import MODELS
def text_of(S, p):
    ps = S.cstr(p)
    if ps is None or len(ps) != 1 or ps[0][0] not in ('id', 'lit'):
        raise Unsupported('type string')
    return ps[0]
def norm_chars(S, p):
    """the normal form of a type string, a function of the string (decided under P20)"""
    t = text_of(S, p)
    if t[0] == 'lit':
        return [C(wrap_const(c, 8)) for c in norm_bytes(t[1])]
    return [app('normchr', t[1], C(j), lo=-128, hi=127) for j in range(7)] + [ZERO]
def is_valid(cs):
    """whether a type string is accepted, a function of its characters (decided under P20)"""
    if all(c.is_const() for c in cs):
        b = bytes(c.cval() & 255 for c in cs).split(b'\0')[0]
        m = re.match(rb'[<>|=][Sbifuc][ \t\n\v\f\r]*([+-]?\d+)', b)
        return TRUE if m and 1 <= int(m.group(1)) <= 16 else FALSE
    return eq(app('dtvalid', *cs, lo=0, hi=1), 1)
def m_normalize(ex, S, a):
    for j, c in enumerate(norm_chars(S, a[1])):
        put_(S, a[0] + j, c, 1)
    return ZERO
def m_isvalid(ex, S, a):
    if a[0].is_const() and a[0].cval() == 0:
        return ZERO
    return ONE if S.decide(is_valid([S.rd(a[0] + j, 1) for j in range(8)])) else ZERO
def m_calloc_big(ex, S, a):
    """an allocation whose size depends on the data may fail"""
    if not (a[0].is_const() and a[1].is_const()) and S.nondet('calloc_fails'):
        S.ghost['fault'] = ONE
        return ZERO
    return MODELS['calloc'](ex, S, a)

class Plan:
    def __init__(self, meta, want):
        self.meta, self.want = meta, want

class MakeBlock(Contract):
    def fresh_block(self, S, bb, text, N, dt, nm, fz, ck, meta):
        """what bb is afterwards"""
        def own(f, kind='heap'):
            def q(S):
                o, off = S.resolve(S.rd(B_(bb, f), 8))
                return TRUE if o is not None and S.alive(o) and o.kind == kind and o.id not in S.ex.frame_old and off == 0 else FALSE
            return q
        e = Effect()
        out = [('a name of its own', own('basename')), ('attributes of its own', own('attrset')),
               ('the name is that of the block', lambda S: same_text(S, S.rd(B_(bb, 'basename'), 8), text))]
        def noattr(S):
            at = S.rd(B_(bb, 'attrset'), 8)
            return and_(eq(get(S, at, 'BigAttrSet', 'listused'), 0), eq(get(S, at, 'BigAttrSet', 'bufused'), 0))
        out.append(('attributes are those of the files', noattr))
        if meta:
            for f, w in (('fsize', 8), ('foffset', 8), ('fchecksum', 8), ('size', 8), ('Nfile', 4)):
                out.append(('no files: ' + f, lambda S, f=f, w=w: eq(S.rd(B_(bb, f), w), 0)))
        else:
            out += new_tables(e, bb, N, fz, ck)
            out.append(('size is the total of the files', lambda S: eq(S.rd(B_(bb, 'size'), 8), sum_(fz(Poly.atom(PLACE)), N))))
            out.append(('number of files', lambda S: eq(S.rd(B_(bb, 'Nfile'), 4), N)))
            out.append(('number of members', lambda S: eq(S.rd(B_(bb, 'nmemb'), 4), nm)))
            for j in range(8 if dt else 0):
                out.append(('type in its normal form, character %d' % j, lambda S, j=j: eq(S.rd(B_(bb, 'dtype') + j, 1), dt[j])))
        return out

class CreateInternal(MakeBlock):
    name = '_big_block_create_internal'
    def cases(self):
        return ['named block', 'named block, no type', 'no name', 'current directory']
    def uses(self):
        return {'_strdup': Strdup()}
    def models(self):
        return dict(RAISE, _dtype_normalize=m_normalize, dtype_isvalid=m_isvalid, calloc=m_calloc_big, big_block_flush=self.m_flush())
    def m_flush(self):
        def m(ex, S, a):
            """decided above: saves what is marked unsaved, or reports failure"""
            bb, = a
            S.require('the block that is being created', eq(bb, self.bbp))
            S.require('saved once', eq(S.ghost['flushed'], 0))
            at = get(S, bb, 'BigBlock', 'attrset')
            S.require('the attributes are to be saved', ne(get(S, at, 'BigAttrSet', 'dirty'), 0))
            plan = S.ghost['plan']
            if plan.meta:
                S.require('a block without files has no header', eq(get(S, bb, 'BigBlock', 'dirty'), 0))
            else:
                S.require('the header is to be saved', ne(get(S, bb, 'BigBlock', 'dirty'), 0))
            for n, q in plan.want:
                for s, f in ex.explore(S.copy(), q):
                    try:
                        ex.obligation(s, 'requires', 'when saved: ' + n, f)
                    except PathEnd:
                        pass
            if failing(S, 'flush_fails'):
                return C(-1)
            S.ghost['flushed'] = S.ghost['flushed'] + 1
            put_(S, B_(bb, 'dirty'), 0, 4)
            put_(S, fld(at, 'BigAttrSet', 'dirty'), 0, 4)
            return ZERO
        return m
    def setup(self, ex, S, case):
        o = obj(S, 'bb', sizeof('BigBlock'))
        self.bbp = o.base
        S.ghost['flushed'] = ZERO
        S.ghost['plan'] = Plan(None, [])
        GHOST_FREE.update(('flushed', 'plan'))
        if case == 'no name':
            name = ZERO
        elif case == 'current directory':
            no = obj(S, 'basename', 2, const=True); puts(S, no.base, b'.', 2)
            name = no.base
        else:
            no = sstr(S, 'basename')
            S.assume(lt(no.info['text'][1], 8192))
            name = no.base
        dt = ZERO if case.endswith('no type') else sstr(S, 'dtype').base
        N = var('Nfile', 0, MAXFILE)
        fz = Tab(S, 'fsize', N)
        S.assume(le(sum_(fz.fn(Poly.atom(PLACE)), N), MAXROWS))
        return [o.base, name, dt, var('nmemb', 0, 1 << 20), N, fz.o.base]
    def spec(self, S, args):
        bb, name, dt, nm, N, fz = args
        S.require('number of files', and_(ge(N, 0), le(N, MAXFILE)))
        null = name.is_const() and name.cval() == 0
        text = (('lit', b'/.'),) if null else S.cstr(name)
        if text is None:
            raise Unsupported('name of unknown text')
        e = Effect()
        good = Effect(ret=ZERO); bad = Effect(ret=C(-1))
        bad.ghosts['err'] = ONE
        good.leak_ok = True
        for x in (good, bad):
            x.allow.append((bb, C(sizeof('BigBlock'))))
        blank = FALSE
        if text[0][0] == 'id':
            blank = or_(*[eq(app('haschr_%d' % c, text[0][1], lo=0, hi=1), 1) for c in b' \t\n'])
        if S.decide(blank):
            bad.check = lambda base, R, mp: [('a refused name saves nothing', lambda S: eq(S.ghost['flushed'], 0))]
            e.alts = [('refused', lambda r: eq(r, -1), bad)]
            return e
        # the directory itself: "." or a name ending in "/."
        L = parts_len(text)
        ch = (lambda k: S.rd(name + k, 1)) if not null else (lambda k: C(b'/.'[k.cval()]))
        if S.decide(eq(L, 0)):
            meta = True
        elif S.decide(eq(L, 1)):
            S.assume(eq(ch(L - 1), ch(ZERO)))      # the same character
            meta = S.decide(eq(ch(L - 1), 46))
        else:
            meta = S.decide(and_(eq(ch(L - 1), 46), eq(ch(L - 2), 47)))
        nodt = dt.is_const() and dt.cval() == 0
        if nodt:
            N = ZERO
        f = lambda k: app('fsize', k, lo=0, hi=MAXROWS)
        cs = None
        if not meta:
            if nodt:
                cs = [C(c) for c in b'<i8\0\0\0\0\0']
            else:
                cs = norm_chars(S, dt)
            if not S.decide(is_valid(cs)):
                bad.check = lambda base, R, mp: [('a refused type saves nothing', lambda S: eq(S.ghost['flushed'], 0))]
                e.alts = [('refused', lambda r: eq(r, -1), bad)]
                return e
        want = self.fresh_block(S, bb, text, N, cs, nm, f, lambda k: ZERO, meta)
        S.ghost['plan'] = Plan(meta, want)
        bad.ghosts['fault'] = ONE
        good.ghosts['fault'] = ZERO
        def ok(base, R, mp):
            at = lambda S: S.rd(B_(bb, 'attrset'), 8)
            return want + [('the header and the attributes are saved', lambda S: eq(S.ghost['flushed'], 1)),
                           ('nothing is left to save', lambda S: and_(eq(S.rd(B_(bb, 'dirty'), 4), 0), eq(get(S, at(S), 'BigAttrSet', 'dirty'), 0))),
                           no_handles(base, R)]
        good.check = ok
        e.alts = [('created', lambda r: eq(r, 0), good), ('failed', lambda r: eq(r, -1), bad)]
        return e

class CreateApply(CreateInternal):
    """call-site form of the proved contract"""
    def apply(self, ex, S, args):
        bb, name, dt, nm, N, fz = args
        o, boff = S.access(bb, C(sizeof('BigBlock')), 'write')
        S.ex.note_write(S, o, boff, C(sizeof('BigBlock')))
        eff = self.spec(S, args)
        if len(eff.alts) == 1:
            S.ghost['err'] = ONE
            S.push(o, ('H', boff, C(sizeof('BigBlock')), Blob('refused block')))
            return C(-1)
        if failing(S, 'create_internal_fails'):
            S.push(o, ('H', boff, C(sizeof('BigBlock')), Blob('failed block')))
            return C(-1)
        null = name.is_const() and name.cval() == 0
        text = (('lit', b'/.'),) if null else S.cstr(name)
        plan = S.ghost['plan']
        S.push(o, ('F', boff, C(sizeof('BigBlock')), ZERO))
        no = S.alloc('name', parts_len(text) + 1, 'heap')
        S.push(no, ('S', ZERO, parts_len(text) + 1, text))
        put_(S, B_(bb, 'basename'), no.base)
        at = S.alloc('attrset', C(sizeof('BigAttrSet')), 'heap')
        S.push(at, ('F', ZERO, C(sizeof('BigAttrSet')), ZERO))
        for f, n in (('attrbuf', 128), ('attrlist', 16 * sizeof('BigAttr'))):
            put_(S, fld(at.base, 'BigAttrSet', f), S.alloc(f, C(n), 'heap').base)
        put_(S, fld(at.base, 'BigAttrSet', 'bufsize'), 128); put_(S, fld(at.base, 'BigAttrSet', 'listsize'), 16)
        put_(S, B_(bb, 'attrset'), at.base)
        if not plan.meta:
            if dt.is_const() and dt.cval() == 0:
                N = ZERO
                cs = [C(c) for c in b'<i8\0\0\0\0\0']
            else:
                cs = norm_chars(S, dt)
            f = lambda k: app('fsize', k, lo=0, hi=MAXROWS)
            body = f(Poly.atom(PLACE))
            for j, c in enumerate(cs):
                put_(S, B_(bb, 'dtype') + j, c, 1)
            put_(S, B_(bb, 'nmemb'), nm, 4)
            put_(S, B_(bb, 'Nfile'), N, 4)
            put_(S, B_(bb, 'size'), sum_(body, N))
            for fn, w, rd in (('fsize', 8, f), ('foffset', 8, lambda k: sum_(body, P(k))), ('fchecksum', 4, lambda k: ZERO)):
                t = S.alloc(fn, (N + 1) * w, 'heap')
                S.push(t, ('H', ZERO, (N + 1) * w, table(rd, w)))
                put_(S, B_(bb, fn), t.base)
        return ZERO

class Create(CreateInternal):
    """_big_block_create: the block, its header, and exactly its data files, empty"""
    name = '_big_block_create'
    def uses(self):
        return {'_big_block_create_internal': CreateApply()}
    def models(self):
        return dict(RAISE, _big_file_open_a_file=m_create_open(self), fclose=m_fclose_new)
    def setup(self, ex, S, case):
        self.made = Events(S, 'created files', 3)
        return CreateInternal.setup(self, ex, S, case)
    def spec(self, S, args):
        bb, name, dt, nm, N, fz = args
        e = CreateInternal.spec(self, S, args)
        none = ('no data file is touched', lambda S: eq(self.made.count(S), 0))
        if len(e.alts) == 1:
            e.alts[0][2].check = lambda base, R, mp: [none]
            return e
        good, bad = e.alts[0][2], e.alts[1][2]
        plan = S.ghost['plan']
        nf = ZERO if plan.meta or (dt.is_const() and dt.cval() == 0) else N
        def bname(S):
            return S.rd(B_(bb, 'basename'), 8)
        good.check = lambda base, R, mp: plan.want + made_files(self.made, bname, ZERO, nf) + [no_handles(base, R)]
        def cleared(S):
            return TRUE
        bad.check = lambda base, R, mp: [no_handles(base, R)]
        return e

# ------------------------------------------------------------------ opening
FDIR = re.compile(rb'%(\d*)(hh|h|ll|l|t|z|j)?([diuxXs])')
def literal(S, p):
    ps = S.cstr(p)
    if ps is None or len(ps) > 1 or (ps and ps[0][0] != 'lit'):
        raise Unsupported('format')
    return ps[0][1] if ps else b''

class Header:
    bb = None
    """a text file read by fscanf: the lines that flush writes (saved), or anything"""
    def __init__(self, S, lines=None, row=None, nline=None):
        self.lines, self.row, self.nline = lines, row, nline
        S.ghost['line'] = ZERO
        S.ghost['col'] = (0, 0)
        S.ghost['conv'] = ZERO
        GHOST_FREE.update(('line', 'col', 'conv'))
    def toks(self, S, L):
        if L.is_const() and 0 <= L.cval() < len(self.lines):
            return self.lines[L.cval()]
        if S.decide(and_(ge(L, len(self.lines)), lt(L, self.nline))):
            return self.row(L - len(self.lines))
        return None
    def scan(self, ex, S, fmt, args):
        args = list(args)
        n = 0
        i = 0
        if self.lines is None:
            # anything may be found; whatever is found is converted
            while i < len(fmt):
                m = FDIR.match(fmt, i)
                if not m:
                    i += 1
                    continue
                i = m.end()
                if S.nondet('scan_stops'):
                    S.ghost['fault'] = ONE
                    return C(n) if n or not S.nondet('scan_ends') else C(-1)
                c = S.ghost['conv']
                S.ghost['conv'] = c + 1
                self.assign(ex, S, m, args.pop(0), {b's': ('text', app('htext', c))}.get(m.group(3), ('any', c)))
                n += 1
            return C(n)
        L, col = S.ghost['line'], S.ghost['col']
        ts = self.toks(S, L) if col != 'eol' else None
        if col == 'eol':
            t, k = 0, -1       # before the newline that ends line L-1
            ts = None
        else:
            t, k = col
        WS = b' \t\n\v\f\r'
        def stop(r):
            nonlocal L, t, k
            if ts is not None and k >= 0 and t == len(ts) - 1 and ts[t] == ('lit', b'\n') and k == 0:
                S.ghost['line'], S.ghost['col'] = L + 1, 'eol'
            elif k < 0:
                S.ghost['line'], S.ghost['col'] = L, 'eol'
            else:
                S.ghost['line'], S.ghost['col'] = L, (t, k)
            return C(r)
        def here():
            """the character under the cursor, a token, or None at the end"""
            nonlocal L, t, k, ts
            while True:
                if k < 0:
                    return 10
                if ts is None:
                    ts = self.toks(S, L)
                    if ts is None:
                        return None
                if t >= len(ts):
                    L, t, k, ts = L + 1, 0, 0, None
                    continue
                tk = ts[t]
                if tk[0] != 'lit':
                    return tk
                if k >= len(tk[1]):
                    t, k = t + 1, 0
                    continue
                return tk[1][k]
        def step():
            nonlocal t, k
            k += 1
        def skip():
            while True:
                c = here()
                if isinstance(c, int) and c in WS:
                    step()
                else:
                    return
        while i < len(fmt):
            m = FDIR.match(fmt, i)
            if fmt[i] in WS:
                skip(); i += 1
                continue
            if not m:
                if fmt[i:i + 1] == b'%':
                    raise Unsupported('format %r' % fmt)
                c = here()
                if c != fmt[i]:
                    return stop(n if n or c is not None else -1)
                step(); i += 1
                continue
            i = m.end()
            skip()
            c = here()
            if c is None:
                return stop(n or -1)
            if isinstance(c, int):
                raise Unsupported('conversion of fixed text')
            want = {b's': 'text', b'x': 'hex', b'X': 'hex'}.get(m.group(3), 'dec')
            if c[0] != want or (m.group(1) and want != 'text'):
                raise Unsupported('conversion %s of %s' % (m.group(0), c[0]))
            self.assign(ex, S, m, args.pop(0), c)
            t, k = t + 1, 0
            n += 1
        here()
        return stop(n)
    def assign(self, ex, S, m, dst, tk):
        w = 8 if m.group(2) in (b'l', b'll', b't', b'z', b'j') else 4
        if m.group(3) == b's':
            ln = app('strlen', tk[1], lo=0, hi=1 << 30)
            if m.group(1):
                if tk[0] == 'text' and self.lines is None:
                    S.assume(and_(ge(ln, 1), le(ln, int(m.group(1)))))
                else:
                    S.require('the text fits the conversion', le(ln, int(m.group(1))))
            o, off = S.access(dst, ln + 1, 'write')
            if o is self.bb and off == fo('BigBlock', 'dtype'):
                S.require('the text fits the field', le(ln + 1, fs('BigBlock', 'dtype')))
            S.ex.note_write(S, o, off, ln + 1)
            S.push(o, ('S', off, ln + 1, (('id', tk[1]),)))
            return
        h = 1 << (8 * w - 1)
        if tk[0] == 'any':
            v = app('hvalue%d' % w, tk[1], lo=-h, hi=h - 1)
        else:
            v = tk[1]
            if m.group(3) in (b'd', b'i'):
                S.require('the number fits the conversion', and_(ge(v, -h), lt(v, h)))
            else:
                S.require('the number fits the conversion', and_(ge(v, 0), lt(v, 2 * h)))
                v = ex.from_unsigned(S, v, 8 * w)
        put_(S, dst, v, w)

def valid_text(S, p):
    ps = S.cstr(p)
    if ps is not None and len(ps) == 1 and ps[0][0] == 'id':
        return eq(app('dtvalid_text', ps[0][1], lo=0, hi=1), 1)
    return is_valid([S.rd(p + j, 1) for j in range(8)])

class Open(MakeBlock):
    name = '_big_block_open'
    def cases(self):
        return ['saved header', 'no name', 'current directory']
    def uses(self):
        return {'_strdup': Strdup()}
    def models(self):
        def m_open(ex, S, a):
            base, fid, mode, rs = a
            S.require('the header of the block', eq(fid, -1))
            S.require('the block of that name', same_text(S, base, self.text))
            S.require('the header is opened for reading', TRUE if literal(S, mode) in (b'r', b'rb') else FALSE)
            if S.nondet('open_fails'):
                S.ghost['fault'] = ONE
                if S.decide(ne(rs, 0)):
                    S.ghost['err'] = ONE
                return ZERO
            return S.alloc('FILE', C(8), 'file').base
        def m_scan(ex, S, a):
            o, off = S.resolve(a[0])
            if o is None or o.kind != 'file' or not S.alive(o):
                S.oblige('memory', 'input from something that is no open file', FALSE)
                raise PathEnd()
            return self.h.scan(ex, S, literal(S, a[1]), a[2:])
        def m_attr(which):
            def m(ex, S, a):
                S.require('the attributes of the block of that name', same_text(S, a[1], self.text))
                S.require('old attribute files are read before new ones', TRUE if S.ghost['attrs'] == ({'v1': (), 'v2': ('v1',)}[which]) else FALSE)
                if failing(S, 'attr_' + which):
                    return C(-1)
                S.ghost['attrs'] = S.ghost['attrs'] + (which,)
                S.ghost['attrs_of'] = a[0]
                return ZERO
            return m
        def m_valid(ex, S, a):
            return ONE if S.decide(valid_text(S, a[0])) else ZERO
        def m_fclose(ex, S, a):
            o, off = S.resolve(a[0])
            if o is None or o.kind != 'file' or not S.alive(o):
                S.oblige('memory', 'fclose of something that is no open file', FALSE)
                raise PathEnd()
            S.free(o)
            return S.fresh('fclose', -1, 0)
        return dict(RAISE, _big_file_open_a_file=m_open, fscanf=m_scan, __isoc99_fscanf=m_scan, attrset_read_attr_set_v1=m_attr('v1'), attrset_read_attr_set_v2=m_attr('v2'),
                    dtype_isvalid=m_valid, calloc=m_calloc_big, fclose=m_fclose)
    def setup(self, ex, S, case):
        o = obj(S, 'bb', sizeof('BigBlock'))
        S.ghost['attrs'] = ()
        S.ghost['attrs_of'] = ZERO
        GHOST_FREE.update(('attrs', 'attrs_of'))
        if case == 'no name':
            name = ZERO
            self.text = (('lit', b'/.'),)
        elif case == 'current directory':
            no = obj(S, 'basename', 2, const=True); puts(S, no.base, b'.', 2)
            name = no.base
            self.text = (('lit', b'.'),)
        else:
            no = sstr(S, 'basename')
            S.assume(lt(no.info['text'][1], 8192))
            name = no.base
            self.text = (('id', no.info['text'][0]),)
        self.header(S, case)
        self.h.bb = o
        return [o.base, name]
    def header(self, S, case):
        self.dt = var('text_dtype')
        ln = app('strlen', self.dt, lo=0, hi=1 << 30)
        S.assume(and_(ge(ln, 1), le(ln, 7)))
        self.N = var('Nfile', 0, MAXFILE)
        self.nm = var('nmemb', 0, (1 << 31) - 1)
        self.fz = lambda k: app('fsize', k, lo=0, hi=MAXROWS)
        self.ck = lambda k: app('fck', k, lo=0, hi=(1 << 32) - 1)
        S.assume(le(sum_(self.fz(Poly.atom(PLACE)), self.N), MAXROWS))
        S.assume(eq(app('dtvalid_text', self.dt, lo=0, hi=1), 1))
        L = lambda t: ('lit', t)
        self.h = Header(S, [[L(b'DTYPE: '), ('text', self.dt), L(b'\n')], [L(b'NMEMB: '), ('dec', self.nm), L(b'\n')], [L(b'NFILE: '), ('dec', self.N), L(b'\n')]],
                        lambda k: [('hex', k), L(b': '), ('dec', self.fz(k)), L(b' : '), ('dec', self.ck(k)), L(b' : '), ('dec', app('fsysv', k, lo=0, hi=(1 << 16) - 1)), L(b'\n')], self.N + 3)
    def where(self, S, name):
        null = name.is_const() and name.cval() == 0
        L = parts_len(self.text)
        ch = (lambda k: S.rd(name + k, 1)) if not null else (lambda k: C(b'/.'[k.cval()]))
        if S.decide(eq(L, 0)):
            return True
        elif S.decide(eq(L, 1)):
            S.assume(eq(ch(L - 1), ch(ZERO)))      # the same character
            return S.decide(eq(ch(L - 1), 46))
        return S.decide(and_(eq(ch(L - 1), 46), eq(ch(L - 2), 47)))
    def spec(self, S, args):
        bb, name = args
        meta = self.where(S, name)
        good = Effect(ret=ZERO); bad = Effect(ret=C(-1))
        bad.ghosts['err'] = ONE
        bad.ghosts['fault'] = ONE
        good.ghosts['fault'] = ZERO
        good.leak_ok = True
        for x in (good, bad):
            x.allow.append((bb, C(sizeof('BigBlock'))))
        fck = lambda k: wrapped(self.ck(k), 32)
        chk = self.fresh_block(S, bb, self.text, self.N, None, self.nm, self.fz, fck, True if meta else None)
        if not meta:
            chk.append(('the type is that of the header', lambda S: same_text(S, B_(bb, 'dtype'), (('id', self.dt),))))
        else:
            chk.append(('no type', lambda S: TRUE if dtype_of(S, B_(bb, 'dtype')) == b'####' else FALSE))
        chk.append(('nothing is to be saved', lambda S: eq(S.rd(B_(bb, 'dirty'), 4), 0)))
        chk.append(('both kinds of attributes are read into the attributes of the block', lambda S: eq(S.ghost['attrs_of'], S.rd(B_(bb, 'attrset'), 8)) if S.ghost['attrs'] == ('v1', 'v2') else FALSE))
        good.check = lambda base, R, mp: chk + [no_handles(base, R)]
        bad.check = lambda base, R, mp: [no_handles(base, R)]
        e = Effect()
        e.alts = [('opened', lambda r: eq(r, 0), good), ('failed', lambda r: eq(r, -1), bad)]
        return e

class OpenAny(Open):
    """_big_block_open on a header of any content"""
    def cases(self):
        return ['any header']
    def header(self, S, case):
        self.h = Header(S)
    def spec(self, S, args):
        bb, name = args
        if self.where(S, name):
            e = Effect(anyret=True)
            e.leak_ok = True
            e.allow.append((bb, C(sizeof('BigBlock'))))
            return e        # no header: see Open
        good = Effect(ret=ZERO); bad = Effect(ret=C(-1))
        bad.ghosts['err'] = ONE
        good.ghosts['fault'] = ZERO
        good.leak_ok = True
        for x in (good, bad):
            x.allow.append((bb, C(sizeof('BigBlock'))))
        def tab(S, f):
            return S.rd(B_(bb, f), 8)
        def own(f, w, extra):
            def q(S):
                o, off = S.resolve(tab(S, f))
                if o is None or not S.alive(o) or o.kind != 'heap' or o.id in S.ex.frame_old or off != 0:
                    return FALSE
                return ge(o.size, (S.rd(B_(bb, 'Nfile'), 4) + extra) * w)
            return q
        def k_(S, f):
            k = S.fresh('k', 0, MAXFILE)
            S.assume(lt(k, S.rd(B_(bb, 'Nfile'), 4)))
            return k
        def nonneg(S):
            k = k_(S, 'fsize')
            return ge(S.rd(tab(S, 'fsize') + k * 8, 8), 0)
        def step(S):
            k = k_(S, 'foffset')
            fo_ = tab(S, 'foffset')
            return eq(S.rd(fo_ + (k + 1) * 8, 8), S.rd(fo_ + k * 8, 8) + S.rd(tab(S, 'fsize') + k * 8, 8))
        def spare(f, w):
            def q(S):
                N = S.rd(B_(bb, 'Nfile'), 4)
                o, off = S.resolve(tab(S, f))
                if not S.decide(ge(o.size, (N + 1) * w)):
                    return TRUE
                return eq(S.rd(tab(S, f) + N * w, w), 0)
            return q
        good.check = lambda base, R, mp: [
            ('every line is about a file that is there (rows)', spare('fsize', 8)), ('every line is about a file that is there (checksums)', spare('fchecksum', 4)),
            ('the number of files is not negative', lambda S: ge(S.rd(B_(bb, 'Nfile'), 4), 0)),
            ('the number of members is not negative', lambda S: ge(S.rd(B_(bb, 'nmemb'), 4), 0)),
            ('the type is one that is accepted', lambda S: valid_text(S, B_(bb, 'dtype'))),
            ('tables of their own: fsize', own('fsize', 8, 1)), ('tables of their own: foffset', own('foffset', 8, 1)), ('tables of their own: fchecksum', own('fchecksum', 4, 1)),
            ('no file has a negative size', nonneg),
            ('the first file starts at row 0', lambda S: eq(S.rd(tab(S, 'foffset'), 8), 0)),
            ('file k+1 starts where file k ends', step),
            ('size is the total of the files', lambda S: eq(S.rd(B_(bb, 'size'), 8), S.rd(tab(S, 'foffset') + S.rd(B_(bb, 'Nfile'), 4) * 8, 8))),
            ('every file has its line in the header', lambda S: eq(S.ghost['conv'], 3 + 4 * S.rd(B_(bb, 'Nfile'), 4))),
            no_handles(base, R)]
        bad.check = lambda base, R, mp: [no_handles(base, R)]
        e = Effect()
        e.alts = [('opened', lambda r: eq(r, 0), good), ('failed', lambda r: eq(r, -1), bad)]
        return e
