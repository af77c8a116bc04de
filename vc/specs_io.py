"""P02, P03, P04: transfers between a block's data files and an array.

The data files of a block are one ghost store: file k holds rows foffset[k] .. foffset[k+1]-1, and byte
b of file k is byte foffset[k]*felsize + b of the store.  What is written into the store is what the
program hands to fwrite on a handle of that file, at the position set by fseek.
"""
import re, copy
from .term import *
from .exec import *
from .contract import *
from .world import *
from .elems import *
from .elems import Elems, ElemRegion
from .specs_array import A_, I_, Itemsize, Normalize, ArrayInit, norm_bytes, width, dtype_of, NATIVE
from .specs_seek import m_raise, Seek, SeekRel, Eof, Tables, position, valid_ptr, blk
from .specs_conv import Convert, source_parts, convert_parts, swap_parts, supported, split_kw, it_state
from .loops import Blob

class Store:
    """ghost store of a block's data files"""
    def __init__(self, S, b, fels, w):
        self.b = b; self.fels = P(fels); self.w = w
        memb = lambda S, off, size: app('file_' + b.tag, off, lo=-128, hi=127) if size == 1 else join_bytes(*[app('file_' + b.tag, off + j, lo=-128, hi=127) for j in range(size)])
        self.o = obj(S, b.tag + ' data files', b.size * self.fels, 'ghost', reader=memb)
        self.sums = obj(S, b.tag + ' stored bytes', (b.Nfile + 1) * 8, 'ghost', reader=lambda S, off, n: ZERO)
        self.sums.info['frame_free'] = True
        b.nameo.info['store'] = self
        b.o.info['store'] = self
        self.arr = Arr('store_' + b.tag, w, True, b.size * b.nmemb)

def which(S, sums, j):
    """j, or the index of an entry of the table that was written, when it is that one"""
    e = S.mem[sums.id].log
    while e is not None:
        if e[0] == 'W' and all(c % 8 == 0 for c in e[1].t.values()):
            k = Poly({m: c // 8 for m, c in e[1].t.items()})
            if S.decide(eq(j, k)):
                return k
        e = e[4]
    return j

_keeplog = []
def bytesum(S, o, off, n):
    """sum of the n bytes at off"""
    f = o.info.get('bytefn')
    if f is not None:
        b = f(off + Poly.atom(PLACE))
        return sum_(ite(ge(b, 0), b, b + 256), n)
    log = S.mem[o.id].log
    if not _keeplog or _keeplog[-1] is not log:
        _keeplog.append(log)
    return app('bytesum%d' % o.id, C(id(log)), off, n, lo=0, hi=1 << 60)

class SysvSum(Contract):
    name = 'sysvsum'
    def cases(self):
        return ['any buffer']
    def setup(self, ex, S, case):
        s = obj(S, 'sum', 4)
        put_ = var('sum0', -(1 << 31), (1 << 31) - 1)
        S.push(s, ('W', ZERO, C(4), put_))
        n = var('size', 0, MAXROWS)
        f = lambda off: app('mem_buf', off, lo=-128, hi=127)
        o = obj(S, 'buf', n, reader=lambda S, off, size: f(off) if size == 1 else join_bytes(*[f(off + j) for j in range(size)]), const=True, bytefn=f)
        return [s.base, o.base, n]
    def spec(self, S, args):
        s, buf, n = args
        S.require('the size is not negative', ge(n, 0))
        o, off = S.resolve(buf)
        if o is None:
            raise Unsupported('sysvsum of an unknown buffer')
        S.require('the buffer holds the bytes', and_(ge(off, 0), le(off + n, o.size)))
        e = Effect()
        e.cell(s, 4, wrapped(S.rd(s, 4) + bytesum(S, o, off, n), 32), 'the sum grows by the bytes, modulo 2^32')
        return e

# ------------------------------------------------------------- files
class OpenFile(Contract):
    """_big_file_open_a_file as the transfers use it: a handle of the named file, or NULL with a message"""
    name = '_big_file_open_a_file'
    def apply(self, ex, S, args):
        base, fid, mode, rs = args
        o, off = S.resolve(base)
        if o is None or off != 0:
            raise Unsupported('file of an unknown block')
        S.require('the block name is not released', TRUE if S.alive(o) else FALSE)
        if S.nondet('open_fails'):
            S.ghost['fault'] = ONE
            if S.decide(ne(rs, 0)):
                S.ghost['err'] = ONE
            return ZERO
        ps = S.cstr(mode)
        if ps is None or len(ps) != 1 or ps[0][0] != 'lit':
            raise Unsupported('file mode')
        m = ps[0][1]
        h = S.alloc('FILE', C(8), 'file')
        S.ghost[('fid', h.id)] = fid
        S.ghost[('fpos', h.id)] = ZERO
        S.ghost[('fname', h.id)] = C(o.id)
        S.ghost[('fmode', h.id)] = C(1 if b'r' in m and b'+' not in m else 2 if b'w' in m else 3)
        st = o.info.get('store')
        if st is not None:
            S.require('the data file exists', and_(ge(fid, 0), lt(fid, st.b.Nfile)))
            if m[:1] == b'w':
                S.require('stored rows are not truncated away', FALSE)
        return h.base

def handle(S, p, what):
    o, off = S.resolve(p)
    if o is None or o.kind != 'file':
        S.oblige('memory', '%s of something that is no open file' % what, FALSE)
        raise PathEnd()
    if not S.alive(o):
        S.oblige('memory', '%s of a closed file' % what, FALSE)
        raise PathEnd()
    n = S.ghost[('fname', o.id)].cval()
    return o, S.objs[n].info.get('store'), S.ghost[('fid', o.id)]

def m_fseek(ex, S, a):
    o, st, fid = handle(S, a[0], 'fseek')
    if not (a[2].is_const() and a[2].cval() == 0):
        raise Unsupported('fseek from elsewhere')
    if S.nondet('fseek_fails'):
        S.ghost['fault'] = ONE
        return C(-1)
    S.require('seek to a position inside the file', ge(a[1], 0))
    S.ghost[('fpos', o.id)] = a[1]
    return ZERO

def file_range(S, o, st, fid, ln):
    """where in the store the next ln bytes of the file are"""
    pos = S.ghost[('fpos', o.id)]
    S.require('the bytes lie in the rows of the file', and_(ge(pos, 0), le(pos + ln, st.b.fz(fid) * st.fels)))
    return st.b.fof(fid) * st.fels + pos

def m_fread(ex, S, a):
    buf, size, n, fp = a
    o, st, fid = handle(S, fp, 'fread')
    ln = size * n
    S.oblige('memory', 'length is not negative', and_(ge(size, 0), ge(n, 0)))
    bo, boff = S.access(buf, ln, 'write')
    if st is None:
        raise Unsupported('fread of an unknown file')
    if S.nondet('fread_short'):
        S.ghost['fault'] = ONE
        r = S.fresh('nread', 0, MAXROWS)
        S.assume(lt(r, n))
        S.ex.note_write(S, bo, boff, ln)
        S.push(bo, ('H', boff, ln, Blob('short')))
        return r
    src = file_range(S, o, st, fid, ln)
    S.bulk_copy(bo, boff, st.o, src, ln)
    S.ghost[('fpos', o.id)] = S.ghost[('fpos', o.id)] + ln
    return n

def m_fwrite(ex, S, a):
    buf, size, n, fp = a
    o, st, fid = handle(S, fp, 'fwrite')
    ln = size * n
    S.oblige('memory', 'length is not negative', and_(ge(size, 0), ge(n, 0)))
    bo, boff = S.access(buf, ln, 'read')
    if st is None:
        raise Unsupported('fwrite to an unknown file')
    S.require('the file is open for writing', ne(S.ghost[('fmode', o.id)], 1))
    dst = file_range(S, o, st, fid, ln)
    if S.nondet('fwrite_short'):
        S.ghost['fault'] = ONE
        r = S.fresh('nwritten', 0, MAXROWS)
        S.assume(lt(r, n))
        S.ex.note_write(S, st.o, dst, ln)
        S.push(st.o, ('H', dst, ln, Blob('short')))
        return r
    k = fid * 8
    S.push(st.sums, ('W', k, C(8), S.read(st.sums, k, 8) + bytesum(S, bo, boff, ln)))
    S.bulk_copy(st.o, dst, bo, boff, ln)
    S.ghost[('fpos', o.id)] = S.ghost[('fpos', o.id)] + ln
    return n

def m_fclose(ex, S, a):
    o, st, fid = handle(S, a[0], 'fclose')
    S.free(o)
    if S.nondet('fclose_fails'):
        if not S.must(eq(S.ghost[('fmode', o.id)], 1)):
            S.ghost['fault'] = ONE      # data may be lost
        return C(-1)
    return ZERO

IO = {'fseek': m_fseek, 'fread': m_fread, 'fwrite': m_fwrite, 'fclose': m_fclose, '_big_file_raise': m_raise}

# ------------------------------------------------------------- the loop
class Transfer:
    """loop specification: after w rows, rows abs0 .. abs0+w-1 are transferred and the position is at abs0+w"""
    def __init__(self, loop, c, loc):
        self.c = c
        self.name = 'transfer of rows'
        self.w = new_atom('w@%d' % loop.id, 0, MAXROWS, 'progress')
        self.pw = Poly.atom(self.w)
        self.loc = loc          # dict of what the contract knows
        S0 = loop.S0
        self.it = None
        for oid, os in S0.mem.items():
            o = S0.objs[oid]
            if o.kind == 'stack' and o.size == sizeof('BigArrayIter'):
                try:
                    a = S0.rd(I_(o.base, 'array'), 8)
                except (Fork, Unsupported):
                    continue
                if a == loc['array']:
                    self.it = o
        if self.it is None:
            raise Unsupported('no iterator over the array')
        self.ptr = S0.resolve(loc['ptr'])[0]
        self.fck = loc['b'].fchecksum
        self.owned = {self.it.id, self.ptr.id}
        if c.writes:
            self.owned |= {loc['st'].o.id, loc['st'].sums.id, self.fck.id}
        else:
            self.owned |= {S0.resolve(loc['data'])[0].id}
        self.flag = S0.rd(I_(self.it.base, 'contiguous'), 4)
        self.n0 = S0.nd
    def owns(self, oid):
        return oid in self.owned
    def covers(self, loop, it):
        return it[0] == 'cell' and it[1] in self.owned
    def progress(self, loop, B):
        return B.rd(fld(self.loc['ptr'], 'BigBlockPtr', 'aoffset'), 8) - self.loc['abs']
    def setup(self, loop, S):
        L = self.loc; b = L['b']
        w = self.pw
        S.assume(le(w, L['rows']))
        f = S.fresh('fileid', 0, MAXFILE)
        r = L['abs'] + w
        for x in self.valid(b, f, r):
            S.assume(x)
        W = lambda p, n, v: S.push(S.resolve(p)[0], ('W', S.resolve(p)[1], C(n), v))
        p = L['ptr']
        W(fld(p, 'BigBlockPtr', 'fileid'), 4, f)
        W(fld(p, 'BigBlockPtr', 'roffset'), 8, r - b.fof(f))
        W(fld(p, 'BigBlockPtr', 'aoffset'), 8, r)
        k = w * b.nmemb
        S.push(self.it, ('H', C(fo('BigArrayIter', 'pos')), C(fs('BigArrayIter', 'pos')), Blob('pos')))
        W(I_(self.it.base, 'dataptr'), 8, L['data'] + L['arr'].off(k))
        q = S.fresh('pos')
        W(I_(self.it.base, 'pos'), 8, q)
        S.assume(or_(eq(q, k), ne(self.flag, 0)))
        if self.c.writes:
            S.push(L['st'].o, ('R', ZERO, ZERO, ElemRegion(L['st'].arr, L['st'].o.base, L['abs'] * b.nmemb, k, L['parts'])))
            fn = 'stored@%d' % loop.id
            S.push(L['st'].sums, ('H', ZERO, (b.Nfile + 1) * 8, table(lambda j: app(fn, j, lo=0, hi=1 << 62), 8)))
            S.push(self.fck, ('H', ZERO, (b.Nfile + 1) * 4, table(lambda j: wrapped(b.ck(j) + app(fn, j, lo=0, hi=1 << 62), 32), 4)))
        else:
            S.push(S.resolve(L['data'])[0], ('R', ZERO, ZERO, ElemRegion(L['arr'], L['data'], ZERO, k, L['parts'])))
    def valid(self, b, f, r):
        return [or_(lt(f, b.Nfile), and_(eq(f, 0), eq(b.size, 0))), le(b.fof(f), r), or_(le(r, b.fof(f + 1)), eq(b.size, 0)), or_(lt(r, b.fof(f + 1)), ge(r, b.size)), le(r, b.size)]
    def state(self, loop, w, S0=None):
        """[(name, query)]: the state describes w transferred rows"""
        L = self.loc; b = L['b']
        p = L['ptr']
        k = w * b.nmemb
        out = []
        out.append(('position', lambda S: and_(*self.valid(b, S.rd(fld(p, 'BigBlockPtr', 'fileid'), 4), L['abs'] + w))))
        out.append(('position', lambda S: and_(eq(S.rd(fld(p, 'BigBlockPtr', 'aoffset'), 8), L['abs'] + w), ge(S.rd(fld(p, 'BigBlockPtr', 'fileid'), 4), 0),
                                               eq(S.rd(fld(p, 'BigBlockPtr', 'roffset'), 8), L['abs'] + w - b.fof(S.rd(fld(p, 'BigBlockPtr', 'fileid'), 4))))))
        out.append(('rows transferred are within the request', lambda S: and_(ge(w, 0), le(w, L['rows']))))
        out.append(('array iterator', lambda S: and_(eq(S.rd(I_(self.it.base, 'dataptr'), 8), L['data'] + L['arr'].off(k)), eq(S.rd(I_(self.it.base, 'array'), 8), L['array']),
                                                     eq(S.rd(I_(self.it.base, 'contiguous'), 4), self.flag))))
        out.append(('array iterator index', lambda S: or_(ne(self.flag, 0), eq(S.rd(I_(self.it.base, 'pos'), 8), k))))
        def content(o, arr, data, k0):
            def q(S):
                x = S.fresh('x', 0, 1 << 62)
                S.assume(lt(x, k))
                oo, boff = S.resolve(data)
                base = boff + arr.off(k0 + x)
                fs = []; pos = 0
                for n, v in L['parts'](S, x):
                    fs.append(eq(S.read(oo, base + pos, n), v)); pos += n
                return and_(*fs)
            return q
        if self.c.writes:
            out.append(('rows transferred so far', content(L['st'].o, L['st'].arr, L['st'].o.base, L['abs'] * b.nmemb)))
            def q(S):
                x = S.fresh('y', 0, 1 << 62)
                S.assume(lt(x, b.size * b.nmemb * L['st'].w))
                S.assume(or_(lt(x, L['abs'] * b.nmemb * L['st'].w), ge(x, (L['abs'] * b.nmemb + k) * L['st'].w)))
                return eq(S.read(L['st'].o, x, 1), app('file_' + b.tag, x, lo=-128, hi=127))
            out.append(('other rows keep their content', q))
            def cks(S):
                j = S.fresh('j', 0, MAXFILE)
                S.assume(le(j, b.Nfile))
                j = which(S, L['st'].sums, j)
                return eq(S.read(self.fck, j * 4, 4), wrapped(b.ck(j) + S.read(L['st'].sums, j * 8, 8), 32))
            out.append(('checksums count the stored bytes', cks))
        else:
            out.append(('rows transferred so far', content(None, L['arr'], L['data'], ZERO)))
        return out
    def checks(self, loop, Sg, B):
        return self.state(loop, self.progress(loop, B))
    def entry(self, loop, S0):
        return self.state(loop, ZERO)
    def measures(self, loop, Sg):
        return [self.loc['rows'] - self.pw]

class RW(Contract):
    writes = False
    loc = None
    PAIRS = [('<f8', '<f8'), ('<f8', '>i4'), ('>i4', '<f8'), ('S3', 'S3'), ('<c16', '<c8'), ('<u2', '<u2'), ('b1', 'b1'), ('>u8', '<f4'), ('<f4', 'S3'), ('|S16', 'S16')]
    def models(self):
        return IO
    def uses(self):
        return {'_dtype_convert': Convert(), 'big_array_iter_init': IterInitK(), 'big_file_dtype_itemsize': Itemsize(), '_dtype_normalize': Normalize(),
                'big_array_init': ArrayInit(), 'big_block_seek_rel': SeekRel(), 'big_block_eof': Eof(), '_big_file_open_a_file': OpenFile(), 'sysvsum': SysvSum()}
    def cases(self):
        out = []
        for d, s in self.PAIRS:
            out += ['block %s, array %s, %s' % (d, s, l) for l in ('packed', 'strided')]
        out += ['block without files', 'rows without members']
        return out
    def hints(self, ex, case):
        from .elems import eoff_hook, eoff_region
        ex.disjoint_hook = eoff_hook
        ex.region_hook = eoff_region
        ex.malloc_may_fail = True
        ex.loop_hints = [self.hint]
    def hint(self, loop, Sg, c, ent):
        if loop.f.name == self.name and self.loc:
            return Transfer(loop, self, self.loc)
    def setup(self, ex, S, case):
        m = re.match(r'block (\S+), array (\S+), (\w+)', case)
        meta = case == 'block without files'
        td, ta, lay = m.groups() if m else ('<f8', '<f8', 'packed')
        nm = None if m else 0
        if meta:
            td = '####'
        b = Block(S, meta=meta, dtype=norm_bytes(td.encode()) if not meta else b'####', nmemb=nm)
        if m:
            S.assume(ge(b.nmemb, 1))
        w = width(td.encode()) if not meta else 0
        if not meta:
            Store(S, b, b.nmemb * w, w)
        ptr = obj(S, 'ptr', sizeof('BigBlockPtr'))
        valid_ptr(S, b, ptr.base, 'q')
        a, arr, d = mkarray(S, 'array', ta.encode(), lay != 'strided', ro=self.writes)
        g = ex.gobj(S, ex.prog.mods[0], 'CHUNK_BYTES')
        S.push(g, ('W', ZERO, C(8), var('CHUNK_BYTES', 0, MAXROWS)))
        return [b.p, ptr.base, a.base]
    def known(self, S, loc):
        self.loc = loc
        S.ex.cut_loops = {self.name} if loc else set()
    def spec(self, S, args):
        bb, ptr, a = args
        b = blk(S, bb)
        self.known(S, None)
        T = Tables(S, bb)
        abs_ = position(S, T, ptr)
        total = get(S, a, 'BigArray', 'size')
        nm = get(S, bb, 'BigBlock', 'nmemb')
        D = fld(bb, 'BigBlock', 'dirty')
        if self.writes and S.decide(eq(total, 0)):
            return Effect(ret=ZERO)
        bad = Effect(ret=C(-1))
        bad.ghosts['err'] = ONE
        if self.writes:
            bad.cell(D, 4, ONE, 'the header is to be saved')
        t = dtype_of(S, fld(bb, 'BigBlock', 'dtype')); ta = dtype_of(S, A_(a, 'dtype'))
        if t is None or ta is None:
            raise Unsupported('type')
        w = width(t)
        st = b.o.info.get('store')
        if w == 0 or S.decide(eq(nm, 0)) and S.decide(gt(total, 0)):
            return bad
        if S.decide(eq(nm, 0)):
            if S.decide(gt(w, S.rd(self.chunkaddr(S), 8))):
                return bad
            # nothing to transfer; only memory may be short
            return self.either(S, bad, Effect(ret=ZERO), None)
        S.require('rows of the block', ge(nm, 1))
        S.require('byte positions of the block are representable', le(T.size * nm * w, 1 << 62))
        chunk = S.rd(self.chunkaddr(S), 8)
        rows = fdivp(total, nm)
        if S.decide(gt(nm * w, chunk)) or S.decide(gt(abs_ + rows, T.size)):
            return bad
        arr = arr_of(S, a)
        data = get(S, a, 'BigArray', 'data')
        kd, ks = split_kw(norm_bytes(t)), split_kw(norm_bytes(ta))
        if not self.writes:
            kd, ks = ks, kd
            t, ta = ta, t
        if not supported(kd, ks):
            self.known(S, dict(b=b, st=st, abs=abs_, rows=rows, ptr=ptr, array=a, arr=arr, data=data, parts=lambda S2, x: [(arr.w if not self.writes else st.w, app('none', x))]))
            if S.decide(eq(rows, 0)):
                return self.either(S, bad, Effect(ret=ZERO), None)
            return bad
        if self.writes:
            sp = source_parts(S, arr, data, ZERO, ks)
        else:
            sp = source_parts(S, st.arr, st.o.base, abs_ * nm, ks)
        dt, ts = norm_bytes(t), norm_bytes(ta)
        def parts(S2, x):
            p = sp(S2, x)
            if ts[:1] != NATIVE:
                p = swap_parts(ks, p)
            p = convert_parts(S2, kd, ks, p)
            if dt[:1] != NATIVE:
                p = swap_parts(kd, p)
            return p
        good = Effect(ret=ZERO)
        pos = Seek().spec(S, [bb, ptr, abs_ + rows])
        if not (pos.ret.is_const() and pos.ret.cval() == 0):
            raise Unsupported('end position')
        if S.decide(gt(rows, 0)):
            good.cells += pos.cells; good.exists += pos.exists; good.post += pos.post
        n = rows * nm
        if self.writes:
            tgt = Elems(st.arr, st.o.base, abs_ * nm, n, parts, 'the rows of the block are the converted elements of the array')
        else:
            tgt = Elems(arr, data, ZERO, n, parts, 'the elements of the array are the converted rows of the block')
        good.elems.append(tgt)
        if self.writes:
            good.cell(D, 4, ONE, 'the header is to be saved')
            good.allow.append((b.fchecksum.base, (b.Nfile + 1) * 4))
            st0 = st
            def chk(base, R, mp):
                def q(S):
                    j = S.fresh('j', 0, MAXFILE)
                    S.assume(le(j, b.Nfile))
                    j = which(S, st0.sums, j)
                    return eq(S.read(b.fchecksum, j * 4, 4), wrapped(b.ck(j) + S.read(st0.sums, j * 8, 8), 32))
                return [('the checksum of every file grows by exactly the bytes stored in it', q)]
            good.check = chk
        bad.allow.append((ptr, C(sizeof('BigBlockPtr'))))
        if self.writes:
            bad.allow.append((st.o.base + abs_ * nm * w, n * w))
            bad.allow.append((b.fchecksum.base, (b.Nfile + 1) * 4))
        else:
            bad.elems.append(AnyElems(tgt))
        self.known(S, dict(b=b, st=st, abs=abs_, rows=rows, ptr=ptr, array=a, arr=arr, data=data, parts=parts))
        return self.either(S, bad, good, None)
    def either(self, S, bad, good, _):
        bad = copy.copy(bad)
        bad.ghosts = dict(bad.ghosts, fault=ONE)
        good.ghosts['fault'] = S.ghost.get('fault', ZERO)
        e = Effect()
        e.alts = [('done', lambda r: eq(r, 0), good), ('failed', lambda r: eq(r, -1), bad)]
        return e
    def chunkaddr(self, S):
        return S.ex.gobj(S, S.ex.prog.mods[0], 'CHUNK_BYTES').base

class AnyElems(Elems):
    """elements that may hold anything afterwards"""
    def __init__(self, el):
        Elems.__init__(self, el.arr, el.data, el.k0, el.n, el.parts, el.name)
    def push(self, S):
        o, off = S.resolve(self.data)
        S.ex.note_elems(S, self)
        S.push(o, ('R', ZERO, ZERO, ElemRegion(self.arr, self.data, self.k0, self.n, lambda S2, x, u=next(_any): [(self.arr.w, app('any%d' % u, x, lo=-(1 << (8 * self.arr.w - 1)), hi=(1 << (8 * self.arr.w - 1)) - 1))])))
    def check(self, R, mp):
        return lambda S: TRUE
import itertools
_any = itertools.count()

class Write(RW):
    name = 'big_block_write'
    writes = True
class Read(RW):
    name = 'big_block_read'

class WriteRefuse(Write):
    """the same contract on fewer element types (P04: refusals, P11: checksums)"""
    PAIRS = [('<f8', '<f8'), ('>i4', '<f8'), ('<f4', 'S3')]
class WriteSums(Write):
    PAIRS = [('<f8', '<f8'), ('>i4', '<f8'), ('S3', 'S3')]
class ReadRefuse(Read):
    PAIRS = [('<f8', '<f8'), ('>i4', '<f8'), ('<f4', 'S3')]
