"""P21: names of physical files."""
from .term import *
from .exec import *
from .contract import *
from .world import *
from .specs_seek import m_raise, RAISE

def sstr(S, tag, minlen=0):
    """an arbitrary string: its characters are chr_<tag>(k), its identity the atom <tag>"""
    nid = var('text_' + tag)
    ln = app('strlen', nid, lo=0, hi=1 << 30)
    if minlen:
        S.assume(ge(ln, minlen))
    ch = lambda off: app('chr_id', nid, off, lo=-128, hi=127)
    def rd(S, off, n):
        if n != 1:
            raise Unsupported('wide read of a string')
        if S.decide(eq(off, ln)):
            return ZERO
        S.assume(ne(ch(off), 0))
        return ch(off)
    o = obj(S, tag, ln + 1, reader=rd, const=True, cstr=lambda S, off: (('id', nid),) if off == 0 else None)
    o.info['text'] = (nid, ln, ch)
    return o

def new_string(S, R, want):
    """the returned address is a fresh string of its own with the wanted text"""
    def q(S):
        o, off = S.resolve(R.ret)
        if o is None or o.id in S.ex.frame_old or o.kind != 'heap' or off != 0 or not S.alive(o):
            return FALSE
        return same_text(S, R.ret, want)
    return q

def same_text(S, p, want):
    want = norm_parts(want)
    got = S.cstr(p)
    if got == want:
        return TRUE
    if got is not None and S.decide(eq(parts_len(want), 0)):
        return eq(parts_len(got), 0)
    return FALSE

class PathJoin(Contract):
    name = '_path_join'
    def models(self):
        return RAISE
    def cases(self):
        return ['both given', 'no first part']
    def setup(self, ex, S, case):
        a = sstr(S, 'part1') if case == 'both given' else None
        b = sstr(S, 'part2')
        return [a.base if a else ZERO, b.base]
    def text(self, S, args):
        p1, p2 = args
        y = S.cstr(p2)
        if y is None:
            raise Unsupported('path of unknown text')
        if p1.is_const() and p1.cval() == 0:
            return y
        x = S.cstr(p1)
        if x is None:
            raise Unsupported('path of unknown text')
        n = parts_len(x)
        if S.decide(eq(n, 0)):
            return y
        o, off = S.resolve(p1)
        last = x[-1][1][-1] if x[-1][0] == 'lit' else None
        if last is not None:
            sl = last == 47
        elif o.info.get('text') and off == 0:
            sl = S.decide(eq(S.read(o, n - 1, 1), 47))
        else:
            # the last character of a named text is a fact of the text
            sl = S.decide(eq(app('endslash_%d' % len(x), *[q for p in x for q in p if isinstance(q, Poly)], lo=0, hi=1), 1))
        return norm_parts(x + y) if sl else norm_parts(x + (('lit', b'/'),) + y)
    def spec(self, S, args):
        t = self.text(S, args)
        e = Effect(anyret=True)
        e.leak_ok = True
        e.check = lambda base, R, mp: [('the result is the two parts with one separator', new_string(S, R, t)), ('no memory besides the result is kept', one_new(R, base))]
        return e
    def apply(self, ex, S, args):
        t = self.text(S, args)
        o = S.alloc('path', parts_len(t) + 10, 'heap')
        S.push(o, ('S', ZERO, parts_len(t) + 1, t))
        return o.base

def one_new(R, base, most=1):
    n = sum(1 for oid, os in R.mem.items() if oid not in base.mem and os.alive and R.objs[oid].kind in ('heap', 'file'))
    return lambda S: TRUE if n <= most else FALSE

def m_fopen(ex, S, a):
    t, m = S.cstr(a[0]), S.cstr(a[1])
    if t is None or m is None:
        raise Unsupported('fopen of unknown text')
    S.ghost['fopen'] = S.ghost.get('fopen', ()) + ((t, m),)
    if S.nondet('fopen_fails'):
        S.ghost['fault'] = ONE
        return ZERO
    return S.alloc('FILE', C(8), 'file').base

class OpenFileBody(Contract):
    name = '_big_file_open_a_file'
    def models(self):
        return dict(RAISE, fopen=m_fopen, setbuf=lambda ex, S, a: None)
    def uses(self):
        return {'_path_join': PathJoin()}
    NAMES = {'header': (-1, b'header'), 'old attributes': (-2, b'attr'), 'attributes': (-3, b'attr-v2'), 'data file': None}
    def cases(self):
        return list(self.NAMES)
    def setup(self, ex, S, case):
        b = sstr(S, 'basename')
        k = self.NAMES[case]
        fid = C(k[0]) if k else var('fileid', 0, MAXFILE)
        m = sstr(S, 'mode')
        S.ghost['fopen'] = ()
        return [b.base, fid, m.base, var('raise', 0, 1)]
    def spec(self, S, args):
        b, fid, mode, rs = args
        nm = None
        for k in self.NAMES.values():
            if k and fid == C(k[0]):
                nm = (('lit', k[1]),)
        if nm is None:
            S.require('a data file number', ge(fid, 0))
            nm = (('fmt', '06X', fid),)
        # joined by the contract of _path_join
        tmp = obj(S, 'filename', parts_len(nm) + 1, 'ghost', cstr=lambda S, off: nm if off == 0 else None)
        want = PathJoin().text(S, [b, tmp.base])
        m = S.cstr(mode)
        good = Effect(anyret=True); bad = Effect(ret=ZERO)
        for e in (good, bad):
            e.ghosts['fopen'] = ((want, m),)
        good.leak_ok = True
        good.ghosts['fault'] = ZERO
        good.check = lambda base, R, mp: [('the handle is that of the file', handle_of(R)), ('nothing but the handle is kept', one_new(R, base))]
        bad.ghosts['fault'] = ONE
        if S.decide(ne(rs, 0)):
            bad.ghosts['err'] = ONE
        e = Effect()
        e.alts = [('opened', lambda r: ne(r, 0), good), ('failed', lambda r: eq(r, 0), bad)]
        return e

def handle_of(R):
    def q(S):
        o, off = S.resolve(R.ret)
        return TRUE if o is not None and o.kind == 'file' and S.alive(o) and off == 0 else FALSE
    return q

def m_mkdir(ex, S, a):
    t = S.cstr(a[0])
    if t is None:
        raise Unsupported('mkdir of unknown text')
    S.ghost['mkdir'] = S.ghost.get('mkdir', ()) + (t,)
    r = C(-1) if S.nondet('mkdir_fails') else ZERO
    S.ghost['mkdir_rc'] = r
    return r
def m_stat(ex, S, a):
    t = S.cstr(a[0])
    S.ghost['stat'] = t
    if S.nondet('stat_fails'):
        return C(-1)
    o, off = S.access(a[1], C(144), 'write')
    mode = app('st_mode', lo=0, hi=(1 << 31) - 1)
    S.push(o, ('W', off + 24, C(4), mode))
    return ZERO

class Mkdir(Contract):
    name = '_big_file_mkdir'
    def models(self):
        return dict(RAISE, mkdir=m_mkdir, stat=m_stat, utimes=lambda ex, S, a: S.fresh('utimes', -1, 0))
    def setup(self, ex, S, case):
        d = sstr(S, 'dirname')
        S.ghost['mkdir'] = ()
        S.ghost['mkdir_rc'] = C(-1)
        S.ghost['stat'] = None
        return [d.base]
    def spec(self, S, args):
        t = S.cstr(args[0])
        isdir = eq(app('and32', app('st_mode', lo=0, hi=(1 << 31) - 1), C(0o170000), lo=-(1 << 31), hi=(1 << 31) - 1), 0o40000)
        good = Effect(ret=ZERO); bad = Effect(ret=C(-1))
        good.ghosts['mkdir'] = bad.ghosts['mkdir'] = (t,)
        bad.ghosts['err'] = ONE
        def ok(base, R, mp):
            rc = R.ghost['mkdir_rc']
            if rc == ZERO:
                return []
            return [('success without creating: the name is a directory', lambda S: isdir if R.ghost['stat'] == t else FALSE)]
        def ko(base, R, mp):
            rc = R.ghost['mkdir_rc']
            return [('failure: it was not created', lambda S: ne(rc, 0)), ('failure: and is no directory', lambda S: TRUE if R.ghost['stat'] == t else FALSE)]
        good.check = ok; bad.check = ko
        e = Effect()
        e.alts = [('made', lambda r: eq(r, 0), good), ('failed', lambda r: eq(r, -1), bad)]
        GHOST_FREE.update(('mkdir_rc', 'stat'))
        return e

class Strdup(Contract):
    """_strdup: a copy of its own (names and paths are shorter than the 8192 characters it copies)"""
    name = '_strdup'
    def setup(self, ex, S, case):
        a = sstr(S, 'source')
        return [a.base]
    def spec(self, S, args):
        t = S.cstr(args[0])
        if t is None:
            raise Unsupported('copy of an unknown string')
        o = S.resolve(args[0])[0]
        S.require('the text is in memory that is still there', TRUE if S.alive(o) else FALSE)
        S.require('the text is shorter than 8192 characters', lt(parts_len(t), 8192))
        e = Effect(anyret=True)
        e.leak_ok = True
        e.check = lambda base, R, mp: [('the result is a copy of its own', new_string(S, R, t)), ('no memory besides the result is kept', one_new(R, base))]
        return e
    def apply(self, ex, S, args):
        self.spec(S, args)
        t = S.cstr(args[0])
        o = S.alloc('copy', parts_len(t) + 1, 'heap')
        S.push(o, ('S', ZERO, parts_len(t) + 1, t))
        return o.base
