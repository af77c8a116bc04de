"""P07, P08, P18, P21: closing blocks; files: opening, creating, closing, and their blocks."""
from .term import *
from .exec import *
from .contract import *
from .world import *
from .specs_seek import RAISE, blk
from .specs_record import failing
from .specs_path import sstr, same_text, PathJoin, Strdup, norm_parts
from .specs_block import B_, no_handles

F_ = lambda p, f: fld(p, 'BigFile', f)

def owned(S, b):
    """what an open block owns"""
    out = [b.nameo, b.ao]
    for f in ('attrbuf', 'attrlist'):
        out.append(S.resolve(get(S, b.ao.base, 'BigAttrSet', f))[0])
    if not b.meta:
        out += [b.fsize, b.foffset, b.fchecksum]
    return out

def full_attrs(S, b):
    n = var('attrbytes', 0, 1 << 30)
    m = var('attrcount', 0, 1 << 24)
    put(S, b.ao.base, 'BigAttrSet', 'attrbuf', obj(S, 'attrbuf', n).base)
    put(S, b.ao.base, 'BigAttrSet', 'attrlist', obj(S, 'attrlist', m * sizeof('BigAttr')).base)
    put(S, b.ao.base, 'BigAttrSet', 'listused', var('listused', 0, 1 << 24))
    put(S, b.ao.base, 'BigAttrSet', 'dirty', var('adirty', -(1 << 31), (1 << 31) - 1))

class CloseInternal(Contract):
    name = '_big_block_close_internal'
    def cases(self):
        return ['block with files', 'block without files']
    def setup(self, ex, S, case):
        b = Block(S, meta=(case != 'block with files'))
        full_attrs(S, b)
        return [b.p]
    def spec(self, S, args):
        bb, = args
        b = blk(S, bb)
        e = Effect(anyret=True)
        e.frees += owned(S, b)
        e.region(bb, C(sizeof('BigBlock')), lambda S, off, n: ZERO, 1, 'the block is empty')
        return e

class Close(CloseInternal):
    """big_block_close: saves what is unsaved, then gives back everything the block owns"""
    name = 'big_block_close'
    def uses(self):
        return {'_big_block_close_internal': CloseInternal()}
    def models(self):
        def m(ex, S, a):
            """decided as Flush"""
            b = blk(S, a[0])
            S.require('the block to be closed', eq(a[0], self.bbp))
            for o in owned(S, b):
                S.require('the block is still whole', TRUE if S.alive(o) else FALSE)
            S.ghost['flushed'] = S.ghost['flushed'] + 1
            if failing(S, 'flush_fails'):
                return C(-1)
            return ZERO
        return dict(RAISE, big_block_flush=m)
    def setup(self, ex, S, case):
        a = CloseInternal.setup(self, ex, S, case)
        S.ghost['flushed'] = ZERO
        self.bbp = a[0]
        return a
    def spec(self, S, args):
        def eff(ret, **gh):
            e = CloseInternal.spec(self, S, args)
            e.ret, e.anyret = C(ret), False
            e.ghosts.update(flushed=ONE, **gh)
            return e
        e = Effect()
        e.alts = [('closed', lambda r: eq(r, 0), eff(0, fault=ZERO)), ('failed', lambda r: eq(r, -1), eff(-1, fault=ONE, err=ONE))]
        return e

# ------------------------------------------------------------------ files
def a_file(S):
    o = obj(S, 'bf', sizeof('BigFile'))
    n = sstr(S, 'file')
    S.assume(lt(n.info['text'][1], 8192))
    put(S, o.base, 'BigFile', 'basename', n.base)
    return o, n

class OpenFile(Contract):
    name = 'big_file_open'
    def uses(self):
        return {'_strdup': Strdup()}
    def models(self):
        def m_stat(ex, S, a):
            S.require('the name is looked up', same_text(S, a[0], self.text))
            S.ghost['looked'] = ONE
            if S.nondet('stat_fails'):
                S.ghost['fault'] = ONE
                return C(-1)
            return ZERO
        return dict(RAISE, stat=m_stat, lstat=m_stat, access=m_stat)
    def setup(self, ex, S, case):
        o = obj(S, 'bf', sizeof('BigFile'))
        n = sstr(S, 'name')
        S.assume(lt(n.info['text'][1], 8192))
        self.text = (('id', n.info['text'][0]),)
        S.ghost['looked'] = ZERO
        return [o.base, n.base]
    def outcome(self, S, bf, text, **gh):
        good = Effect(ret=ZERO); bad = Effect(ret=C(-1))
        good.ghosts.update(fault=ZERO, **gh)
        bad.ghosts.update(fault=ONE, err=ONE, **gh)
        good.leak_ok = True
        for e in (good, bad):
            e.allow.append((bf, C(sizeof('BigFile'))))
        def own(S):
            o, off = S.resolve(S.rd(F_(bf, 'basename'), 8))
            return TRUE if o is not None and S.alive(o) and o.kind == 'heap' and o.id not in S.ex.frame_old and off == 0 else FALSE
        def kept(base, R):
            n = sum(1 for oid, os in R.mem.items() if oid not in base.mem and os.alive and R.objs[oid].kind in ('heap', 'file'))
            return ('nothing but the name is kept', lambda S: TRUE if n == 1 else FALSE)
        good.check = lambda base, R, mp: [('a name of its own', own), ('it is the name given', lambda S: same_text(S, S.rd(F_(bf, 'basename'), 8), text)), kept(base, R)]
        e = Effect()
        e.alts = [('done', lambda r: eq(r, 0), good), ('failed', lambda r: eq(r, -1), bad)]
        return e
    def spec(self, S, args):
        bf, name = args
        return self.outcome(S, bf, S.cstr(name), looked=ONE)

def m_mksub(self):
    """_big_file_mksubdir_r, decided as MakeDirs"""
    def m(ex, S, a):
        t = S.cstr(a[1])
        if t is None:
            raise Unsupported('directories of an unknown text')
        root = None if a[0].is_const() and a[0].cval() == 0 else S.cstr(a[0])
        S.ghost['dirs'] = S.ghost['dirs'] + ((root, t),)
        if failing(S, 'mksubdir_fails'):
            return C(-1)
        return ZERO
    return m

class CreateFile(OpenFile):
    name = 'big_file_create'
    def models(self):
        return dict(RAISE, _big_file_mksubdir_r=m_mksub(self))
    def setup(self, ex, S, case):
        a = OpenFile.setup(self, ex, S, case)
        S.ghost['dirs'] = ()
        return a
    def spec(self, S, args):
        bf, name = args
        t = S.cstr(name)
        e = self.outcome(S, bf, t, dirs=((None, t),))
        e.alts[1][2].check = lambda base, R, mp: [('no name is left behind', lambda S: eq(S.rd(F_(bf, 'basename'), 8), 0))]
        return e

class CloseFile(Contract):
    name = 'big_file_close'
    def setup(self, ex, S, case):
        o, n = a_file(S)
        return [o.base]
    def spec(self, S, args):
        bf, = args
        e = Effect(ret=ZERO)
        e.frees.append(S.resolve(S.rd(F_(bf, 'basename'), 8))[0])
        e.cell(F_(bf, 'basename'), 8, ZERO, 'no name is left behind')
        return e

class OpenBlock(Contract):
    """big_file_open_block: the block in the directory of that name inside the file"""
    name = 'big_file_open_block'
    def uses(self):
        return {'_path_join': PathJoin()}
    def models(self):
        def m(ex, S, a):
            S.ghost['blocks'] = S.ghost['blocks'] + ((a[0], S.cstr(a[1])) + tuple(a[2:]),)
            if failing(S, 'block_fails'):
                return C(-1)
            return ZERO
        return dict(RAISE, _big_block_open=m, _big_block_create=m, _big_file_mksubdir_r=m_mksub(self))
    def setup(self, ex, S, case):
        o, n = a_file(S)
        b = obj(S, 'bb', sizeof('BigBlock'))
        nm = sstr(S, 'blockname')
        S.assume(lt(nm.info['text'][1], 8192))
        S.ghost['blocks'] = ()
        S.ghost['dirs'] = ()
        return [o.base, b.base, nm.base] + self.more(S)
    def more(self, S):
        return []
    def spec(self, S, args):
        bf, bb, name = args[:3]
        root = S.rd(F_(bf, 'basename'), 8)
        t = PathJoin().text(S, [root, name])
        good = Effect(ret=ZERO); bad = Effect(anyret=True)
        made = ((S.cstr(root), S.cstr(name)),) if args[3:] else ()
        for e in (good, bad):
            e.ghosts.update(blocks=((bb, t) + tuple(args[3:]),), dirs=made)
        good.ghosts['fault'] = ZERO
        bad.ghosts['fault'] = bad.ghosts['err'] = ONE
        if args[3:]:
            # nothing is created below a directory that could not be made
            del bad.ghosts['blocks']
            GHOST_FREE.add('blocks')
            def ko(base, R, mp):
                bl = R.ghost['blocks']
                return [('no other block is created', lambda S: TRUE if bl in ((), good.ghosts['blocks']) else FALSE)]
            bad.check = ko
        e = Effect()
        e.alts = [('done', lambda r: eq(r, 0), good), ('failed', lambda r: ne(r, 0), bad)]
        return e

class CreateBlock(OpenBlock):
    """big_file_create_block: the directories first, then the block in them"""
    name = 'big_file_create_block'
    def more(self, S):
        N = var('Nfile', 0, MAXFILE)
        return [sstr(S, 'dtype').base, var('nmemb', 0, 1 << 20), N, obj(S, 'fsize', N * 8).base]

# ------------------------------------------------------------------ directories
class MakeDirs(Contract):
    """_big_file_mksubdir_r: every ancestor once, from the outermost inward, then the directory itself"""
    name = '_big_file_mksubdir_r'
    def cases(self):
        return ['below a directory', 'on its own']
    def uses(self):
        return {'_strdup': Strdup(), '_path_join': PathJoin()}
    def models(self):
        return dict(RAISE, _big_file_mkdir=self.m_mkdir)
    def ind(self, k):
        """is there an ancestor that ends before character k? (an absolute name on its own starts with one without a name)"""
        named = ite(self.bare, ite(eq(k, 0), ZERO, ONE), ONE)
        return ite(eq(app('chr_id', self.nid, k, lo=-128, hi=127), 47), named, ZERO)
    def ancestors(self, k):
        """how many ancestors end before character k"""
        return sum_(self.ind(Poly.atom(PLACE)), P(k))
    def m_mkdir(self, ex, S, a):
        t = S.cstr(a[0])
        if t is None:
            raise Unsupported('mkdir of unknown text')
        last = t[-1] if t else None
        S.require('nothing is made after a failure', eq(S.ghost['failed'], 0))
        if last is None or last[0] not in ('pre', 'id') or last[1] != self.nid:
            S.require('a directory on the way to the name', FALSE)
            raise PathEnd()
        part = (last,)
        k = part_len(last)
        tmp = Obj('part', None, 'ghost', cstr=lambda S, off: part if off == 0 else None)
        S.add(tmp)
        want = PathJoin().text(S, [self.pathname, tmp.base])
        S.require('the ancestor inside the directory it belongs to', TRUE if norm_parts(want) == norm_parts(t) else FALSE)
        S.require('the ancestor ends where a separator is', or_(eq(k, self.len), eq(app('chr_id', self.nid, k, lo=-128, hi=127), 47)))
        S.require('every ancestor further out is made before, once', eq(self.made(S), self.ancestors(k)))
        S.push(self.n, ('W', ZERO, C(8), self.made(S) + 1))
        if failing(S, 'mkdir_fails'):
            S.ghost['failed'] = ONE
            return C(-1)
        return ZERO
    def made(self, S):
        return S.read(self.n, ZERO, 8)
    def setup(self, ex, S, case):
        GHOST_FREE.add('failed')
        S.ghost['failed'] = ZERO
        self.n = obj(S, 'directories made', 8, 'ghost')
        S.push(self.n, ('W', ZERO, C(8), ZERO))
        self.n.info['frame_free'] = True
        sub = sstr(S, 'subdir')
        self.nid, self.len, ch = sub.info['text']
        S.assume(lt(self.len, 8192))
        self.root = None
        self.rootlen = None
        self.bare = TRUE
        self.pathname = ZERO
        if case == 'below a directory':
            self.root = sstr(S, 'pathname')
            self.pathname = self.root.base
            self.rootlen = self.root.info['text'][1]
            self.bare = eq(self.rootlen, 0)
        return [self.pathname, sub.base]
    def spec(self, S, args):
        # the characters of the text before its end are no terminators
        good = Effect(ret=ZERO); bad = Effect(ret=C(-1))
        good.ghosts['fault'] = ZERO
        bad.ghosts['fault'] = bad.ghosts['err'] = ONE
        good.check = lambda base, R, mp: [('every ancestor and the directory itself is made, nothing else', lambda S: eq(self.made(S), self.ancestors(self.len) + 1))]
        e = Effect()
        e.alts = [('done', lambda r: eq(r, 0), good), ('failed', lambda r: eq(r, -1), bad)]
        return e
