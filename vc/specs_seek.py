"""P01: seek, relative seek, end-of-block."""
from .term import *
from .exec import *
from .contract import *
from .world import *

def m_raise(ex, S, a):
    """assumed at call sites: records an error message (body checked under P18)"""
    S.ghost['err'] = ONE
    return None

def blk(S, p):
    o, off = S.resolve(p)
    if o is None or 'block' not in o.info:
        raise Unsupported('unknown block')
    return o.info['block']

class Tables:
    """row tables of a block, as the state at hand describes them"""
    def __init__(self, S, bb):
        self.size = get(S, bb, 'BigBlock', 'size')
        self.Nfile = get(S, bb, 'BigBlock', 'Nfile')
        self.fo = get(S, bb, 'BigBlock', 'foffset')
        self.fz = get(S, bb, 'BigBlock', 'fsize')
        self.null = self.fo.is_const() and self.fo.cval() == 0
    def off(self, S, k):
        return S.rd(self.fo + P(k) * 8, 8)

RAISE = {'_big_file_raise': m_raise}

class C_(Contract):
    def models(self):
        return RAISE

class Seek(C_):
    name = 'big_block_seek'
    def cases(self):
        return ['block with files', 'block without tables']
    def setup(self, ex, S, case):
        b = Block(S, meta=(case == 'block without tables'))
        ptr = obj(S, 'ptr', sizeof('BigBlockPtr'))
        off = var('offset', -(1 << 62), 1 << 62)
        return [b.p, ptr.base, off]
    def spec(self, S, args):
        bb, ptr, r = args
        T = Tables(S, bb)
        # well-formed tables: size is the total of the table
        if not T.null:
            S.require('size is the end of the offset table', eq(T.size, T.off(S, T.Nfile)))
        S.require('row number in range', and_(ge(r, -(1 << 62)), le(r, 1 << 62)))
        if S.decide(lt(r, 0)):
            r = r + T.size
        if not S.decide(and_(ge(r, 0), le(r, T.size))):
            return self.fail(S)
        e = Effect(ret=ZERO)
        P_ = lambda f: fld(ptr, 'BigBlockPtr', f)
        f = S.fresh('fileid', 0, MAXFILE)
        e.exists = [(f, lambda S, ret: get(S, ptr, 'BigBlockPtr', 'fileid'))]
        if T.null:
            base = ZERO
            e.post.append(('file number is 0 for a block without files', eq(f, 0)))
        else:
            base = T.off(S, f)
            e.post += [('the file exists', and_(ge(f, 0), or_(lt(f, T.Nfile), and_(eq(f, 0), eq(T.size, 0))))),
                       ('the row is not before the file', le(base, r)),
                       ('the row is not after the file', or_(le(r, T.off(S, f + 1)), eq(T.size, 0))),
                       ('a row inside the block is inside the file', or_(lt(r, T.off(S, f + 1)), ge(r, T.size)))]
        e.cell(P_('fileid'), 4, f, 'fileid is the file holding the row')
        e.cell(P_('roffset'), 8, r - base, 'roffset is the distance from the start of the file')
        e.cell(P_('aoffset'), 8, r, 'aoffset is the row number')
        return e
    def fail(self, S):
        e = Effect(ret=C(-1))
        e.ghosts['err'] = ONE
        return e

class SeekRel(C_):
    name = 'big_block_seek_rel'
    def uses(self):
        return {'big_block_seek': Seek()}
    def cases(self):
        return ['block with files', 'block without tables']
    def setup(self, ex, S, case):
        meta = case == 'block without tables'
        b = Block(S, meta=meta)
        ptr = obj(S, 'ptr', sizeof('BigBlockPtr'))
        valid_ptr(S, b, ptr.base, 'q')
        return [b.p, ptr.base, var('rel', -(1 << 60), 1 << 60)]
    def spec(self, S, args):
        bb, ptr, rel = args
        T = Tables(S, bb)
        cur = position(S, T, ptr)
        S.require('displacement in range', and_(ge(rel, -(1 << 60)), le(rel, 1 << 60)))
        return Seek().spec(S, [bb, ptr, cur + rel])

class Eof(C_):
    name = 'big_block_eof'
    def cases(self):
        return ['block with files', 'block without tables']
    def setup(self, ex, S, case):
        b = Block(S, meta=(case == 'block without tables'))
        ptr = obj(S, 'ptr', sizeof('BigBlockPtr'))
        valid_ptr(S, b, ptr.base, 'q')
        return [b.p, ptr.base]
    def spec(self, S, args):
        bb, ptr = args
        T = Tables(S, bb)
        cur = position(S, T, ptr)
        if S.decide(ge(cur, T.size)):
            r = S.fresh('eof')
            e = Effect(ret=r)
            e.exists = [(r, lambda S, ret: ret)]
            e.post = [('non-zero at the end', ne(r, 0))]
            return e
        return Effect(ret=ZERO)

def valid_ptr(S, b, ptr, tag):
    """a position obtained by seeking to row r"""
    r = var('row_' + tag, 0, MAXROWS)
    S.assume(le(r, b.size))
    put(S, ptr, 'BigBlockPtr', 'aoffset', r)
    if b.meta:
        put(S, ptr, 'BigBlockPtr', 'fileid', 0)
        put(S, ptr, 'BigBlockPtr', 'roffset', 0)
        S.assume(eq(r, 0))
        return r, ZERO
    f = var('file_' + tag, 0, MAXFILE)
    S.assume(or_(lt(f, b.Nfile), and_(eq(f, 0), eq(b.size, 0))))
    S.assume(le(b.fof(f), r))
    S.assume(or_(le(r, b.fof(f + 1)), eq(b.size, 0)))
    S.assume(or_(lt(r, b.fof(f + 1)), ge(r, b.size)))
    put(S, ptr, 'BigBlockPtr', 'fileid', f)
    put(S, ptr, 'BigBlockPtr', 'roffset', r - b.fof(f))
    return r, f

def position(S, T, ptr):
    """row number a position stands for; the position must be consistent"""
    a = get(S, ptr, 'BigBlockPtr', 'aoffset')
    f = get(S, ptr, 'BigBlockPtr', 'fileid')
    ro = get(S, ptr, 'BigBlockPtr', 'roffset')
    if T.null:
        S.require('position of a block without files', and_(eq(f, 0), eq(ro, 0), eq(a, 0)))
        return ZERO
    S.require('position is consistent', and_(ge(f, 0), le(f, T.Nfile), eq(T.off(S, f) + ro, a), ge(a, 0), le(a, T.size)))
    return a
