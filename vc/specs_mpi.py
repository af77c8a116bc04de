"""Collective calls: two processes of a communicator, the code of each run in turn.

Process A is the root (or the one that decides); process B is any other.  The steps A takes part in
are recorded with what it sends; B has to take the same steps, and receives what A has sent.
"""
from .term import *
from .exec import *
from .exec import parts_len, read_log
from .contract import *
from .world import *
from .specs_seek import RAISE, blk
from .specs_path import sstr, same_text, Strdup, norm_parts
from .specs_block import B_, no_handles
from .specs_record import put_, failing
from .models import MODELS

NT = 1 << 20
TYPES = {'ompi_mpi_int': 4, 'ompi_mpi_unsigned': 4, 'ompi_mpi_byte': 1, 'ompi_mpi_char': 1, 'ompi_mpi_long': 8, 'ompi_mpi_unsigned_long': 8}

def gname(S, p):
    o, off = S.resolve(p)
    if o is None or o.kind != 'global' or not off.is_const() or off.cval():
        return None
    return o.name[1:]

class Ev:
    """a collective step as the first process took it"""
    def __init__(self, op, what, params, data):
        self.op, self.what, self.params, self.data = op, what, params, data

class Pair(Contract):
    rootonly = ()
    mods = ('glue_mpi', 'mpi', 'bigfile')
    def start(self, ex, S, null=False):
        self.nt = var('NTask', 1, NT)
        self.ra, self.rb = ZERO, var('rank', 1, NT)
        S.assume(lt(self.rb, self.nt))
        if null:
            m = [m for m in ex.prog.mods if m.name.endswith('bigfile-mpi.c')][0]
            self.comm = ex.operand_g(S, m, 'ompi_mpi_comm_null')
            # make it part of the initial state
        else:
            self.comm = obj(S, 'comm', 8).base
        self.out = obj(S, 'out', 4)
        S.ghost['side'] = 'A'
        S.ghost['sent'] = ()
        S.ghost['pos'] = 0
        S.ghost['culprit'] = C(-1)
        for s in 'AB':
            S.ghost['err', s] = ZERO
        GHOST_FREE.update(('side', 'sent', 'pos', 'culprit', 'err'))
    def rank(self, S):
        return self.ra if S.ghost['side'] == 'A' else self.rb
    # ---- a collective step
    def step(self, S, op, what, params, data=None):
        if S.ghost['side'] == 'A':
            ev = Ev(op, what, params, data)
            S.ghost['sent'] = S.ghost['sent'] + (ev,)
            return len(S.ghost['sent']) - 1, ev
        i = S.ghost['pos']
        S.ghost['pos'] = i + 1
        name = 'every process takes the same collective steps'
        if i >= len(S.ghost['sent']):
            S.oblige('ensures', name, FALSE)
            raise PathEnd()
        ev = S.ghost['sent'][i]
        if ev.op != op or ev.what != what or len(ev.params) != len(params):
            S.oblige('ensures', name, FALSE)
            raise PathEnd()
        S.oblige('ensures', name + ': ' + op, and_(*[eq(x, y) for x, y in zip(ev.params, params)]))
        return i, ev
    def on(self, S, comm):
        S.require('the communicator given', eq(comm, self.comm))
    def width(self, S, t):
        n = gname(S, t)
        if n not in TYPES:
            raise Unsupported('MPI type')
        return TYPES[n]
    def mpi(self):
        def m_rank(ex, S, a):
            self.on(S, a[0])
            S.store(a[1], 4, self.rank(S))
            return ZERO
        def m_size(ex, S, a):
            self.on(S, a[0])
            S.store(a[1], 4, self.nt)
            return ZERO
        def m_switch(ex, S, a):
            S.ghost['side'] = 'B'
        def m_barrier(ex, S, a):
            self.on(S, a[0])
            self.step(S, 'barrier', '', ())
            return ZERO
        def m_bcast(ex, S, a):
            buf, n, t, root, comm = a
            self.on(S, comm)
            n = n * self.width(S, t)
            S.require('the root is one of the processes', and_(ge(root, 0), lt(root, self.nt)))
            S.require('message length is not negative', ge(n, 0))
            empty = S.decide(eq(n, 0))
            A = S.ghost['side'] == 'A'
            if A and not S.decide(eq(root, self.ra)):
                raise Unsupported('message from another process')
            if not A and S.may(eq(root, self.rb)) and S.decide(eq(root, self.rb)):
                S.oblige('ensures', 'the processes agree on the sender', FALSE)
                raise PathEnd()
            data = None
            if A and not empty:
                o, off = S.access(buf, n, 'read')
                data = (o, S.mem[o.id].log, off)
            i, ev = self.step(S, 'bcast', '', (n, root), data)
            if not A and not empty:
                o, off = S.access(buf, n, 'write')
                so, log, soff = ev.data
                S.ex.note_write(S, o, off, n)
                if n.is_const() and n.cval() <= 8:
                    from .exec import read_log
                    S.push(o, ('W', off, n, read_log(S, so, log, soff, n.cval())))
                else:
                    S.push(o, ('C', off, n, (so, log, soff)))
            return ZERO
        def m_allreduce(ex, S, a):
            sb, rb, n, t, op, comm = a
            self.on(S, comm)
            w = self.width(S, t)
            o = gname(S, op)
            S.require('one number', eq(n, 1))
            if o != 'ompi_mpi_op_max':
                raise Unsupported('reduction')
            if sb.is_const() and sb.cval() == 1:
                sb = rb
            v = S.load(sb, w)
            i, ev = self.step(S, 'allreduce', o, (n, C(w)), v)
            r = v if S.ghost['side'] == 'A' else ev.data
            if S.ghost['side'] == 'B':
                S.oblige('ensures', 'no process outweighs the one that decides', le(v, r))
            S.store(rb, w, r)
            return ZERO
        return dict(MPI_Comm_rank=m_rank, MPI_Comm_size=m_size, vp_switch=m_switch, MPI_Barrier=m_barrier, MPI_Bcast=m_bcast, MPI_Allreduce=m_allreduce,
                    _big_file_raise=self.m_raise)
    def m_raise(self, ex, S, a):
        S.ghost['err', S.ghost['side']] = ONE
        return None
    def models(self):
        return self.mpi()
    def over(self, S):
        return TRUE if S.ghost['pos'] == len(S.ghost['sent']) else FALSE
    def common(self, base, R):
        return [('every process takes the same collective steps: to the end', lambda S: self.over(S))]
    def rout(self, S):
        return S.rd(self.out.base, 4)

# ------------------------------------------------------------------ agreeing on an error
class AnyErrorPair(Pair):
    """big_file_mpi_broadcast_anyerror: the failure of the last process that failed becomes that of all"""
    name = 'vp_anyerror'
    def cases(self):
        return ['no process failed', 'a process failed']
    def models(self):
        def m_get(ex, S, a):
            o = self.msg[S.ghost['side']]
            if S.ghost['side'] == 'B' and S.nondet('no_message'):
                return ZERO
            return o.base
        def m_set(ex, S, a):
            S.ghost['text', S.ghost['side']] = S.cstr(a[0])
            S.ghost['err', S.ghost['side']] = ONE
        return dict(self.mpi(), big_file_get_error_message=m_get, big_file_set_error_message=m_set)
    def setup(self, ex, S, case):
        self.start(ex, S)
        self.ra, self.rb = var('last_failed', 0, NT), var('rank', 0, NT)
        S.assume(and_(lt(self.ra, self.nt), lt(self.rb, self.nt), ne(self.ra, self.rb)))
        self.rta, self.rtb = var('rt_last', -(1 << 31), (1 << 31) - 1), var('rt', -(1 << 31), (1 << 31) - 1)
        self.msg = {}
        for s in 'AB':
            self.msg[s] = sstr(S, 'message' + s)
            S.assume(lt(self.msg[s].info['text'][1], 1 << 30))
            S.ghost['text', s] = (('id', self.msg[s].info['text'][0]),)
        GHOST_FREE.add('text')
        self.failed = case == 'a process failed'
        if self.failed:
            S.assume(ne(self.rta, 0))
            S.assume(imp(gt(self.rb, self.ra), eq(self.rtb, 0)))
        else:
            S.assume(and_(eq(self.rta, 0), eq(self.rtb, 0)))
        return [self.rta, self.rtb, self.comm, self.out.base]
    def spec(self, S, args):
        e = Effect(ret=self.rta)
        e.cell(self.out.base, 4, self.rta, 'the failing process returns its own code')
        def chk(base, R, mp):
            out = self.common(base, R)
            if self.failed:
                out.append(('every process holds the message of the one that decides', lambda S: same(S.ghost['text', 'B'], S.ghost['text', 'A'])))
                out.append(('the message of the failing process is its own', lambda S: same(S.ghost['text', 'A'], base.ghost['text', 'A'])))
            return out
        e.check = chk
        return e

def same(x, y):
    if x is None or y is None:
        return FALSE
    return TRUE if norm_parts(x) == norm_parts(y) else FALSE

class AnyError(Contract):
    """call-site form: a code shared by all processes, zero only if it is zero for all"""
    name = 'big_file_mpi_broadcast_anyerror'
    def __init__(self, pair):
        Contract.__init__(self)
        self.pair = pair
    def apply(self, ex, S, args):
        rt, comm = args
        pr = self.pair
        pr.on(S, comm)
        k, ev = pr.step(S, 'anyerror', '', ())
        side = S.ghost['side']
        err = app('shared_code', C(k), lo=-(1 << 31), hi=(1 << 31) - 1)
        who = app('shared_who', C(k), lo=0, hi=NT)
        S.assume(lt(who, pr.nt))
        S.assume(imp(ne(rt, 0), ne(err, 0)))
        S.assume(imp(and_(ne(err, 0), eq(who, pr.rank(S))), eq(rt, err)))
        n = sum(1 for e in S.ghost['sent'][:k] if e.op == 'anyerror')
        if n in pr.rootonly:
            # only the root has anything to do that may fail: shown of any other process, relied on for all
            if side == 'B':
                S.require('the root alone can fail at this step', eq(rt, 0))
            S.assume(imp(ne(err, 0), eq(who, pr.ra)))
        if S.decide(ne(err, 0)):
            S.ghost['err', side] = ONE
            S.ghost['culprit'] = who
            S.ghost['code'] = err
        return err

class BroadcastPair(Pair):
    """big_block_mpi_broadcast: the block of the root, made anew on the other processes; checksums stay with the root"""
    name = 'vp_broadcast'
    def cases(self):
        return ['block with files', 'block without files']
    def uses(self):
        return {'_strdup': Strdup()}
    def models(self):
        def m_switch(ex, S, a):
            S.ghost['side'] = 'B'
            for o in self.rt.source():
                S.free(o)
        return dict(self.mpi(), vp_switch=m_switch)
    def setup(self, ex, S, case):
        from .specs_pack import RoundTrip
        self.start(ex, S)
        self.ra, self.rb = var('root', 0, NT), var('rank', 0, NT)
        S.assume(and_(lt(self.ra, self.nt), lt(self.rb, self.nt), ne(self.ra, self.rb)))
        self.rt = RoundTrip()
        self.rt.nosums = True
        d, src = self.rt.setup(ex, S, case)
        b, a = self.rt.b, self.rt.a
        # an MPI message holds fewer than 2^31 items
        S.assume(lt(b.nameo.size + 20 * (b.Nfile + 1) + sizeof('BigBlock') + sizeof('BigAttrSet') + a.used + a.n * sizeof('BigAttr'), 1 << 31))
        return [src, d, self.ra, self.comm, self.out.base]
    def spec(self, S, args):
        src, d = args[:2]
        e = self.rt.spec(S, [d, src])
        e.ret, e.anyret = ZERO, False
        e.cell(self.out.base, 4, ZERO, 'return value of the root')
        chk = e.check
        e.check = lambda base, R, mp: chk(base, R, mp) + self.common(base, R)
        return e

# ------------------------------------------------------------------ files
def own_text(side, p, t):
    def q(S):
        o, off = S.resolve(p(S))
        if o is None or not S.alive(o) or o.kind != 'heap' or o.id in S.ex.frame_old or off != 0:
            return FALSE
        return same_text(S, p(S), t)
    return q

def held(base, R):
    return [oid for oid, os in R.mem.items() if oid not in base.mem and os.alive and R.objs[oid].kind in ('heap', 'file')]

class FilePair(Pair):
    """opening and creating files: one process does it, all return the same verdict"""
    op = 'big_file_open'
    def uses(self):
        return {'_strdup': Strdup(), 'big_file_mpi_broadcast_anyerror': AnyError(self)}
    def models(self):
        def m_do(ex, S, a):
            t = S.cstr(a[1])
            S.require('the name given', TRUE if t == self.text else FALSE)
            S.ghost['done', S.ghost['side']] = S.ghost['done', S.ghost['side']] + 1
            if S.nondet('fails'):
                S.ghost['fault'] = ONE
                S.ghost['err', S.ghost['side']] = ONE
                return C(-1)
            o = S.alloc('copy', parts_len(t) + 1, 'heap')
            S.push(o, ('S', ZERO, parts_len(t) + 1, t))
            put_(S, fld(a[0], 'BigFile', 'basename'), o.base)
            return ZERO
        def m_close(ex, S, a):
            p = get(S, a[0], 'BigFile', 'basename')
            MODELS['free'](ex, S, [p])
            put_(S, fld(a[0], 'BigFile', 'basename'), ZERO)
            return ZERO
        return dict(self.mpi(), big_file_close=m_close, **{self.op: m_do})
    def cases(self):
        return ['communicator', 'no communicator']
    def setup(self, ex, S, case):
        self.null = case == 'no communicator'
        self.start(ex, S, self.null)
        self.f = {}
        t = sstr(S, 'nameA')
        S.assume(lt(t.info['text'][1], 8192))
        self.text = (('id', t.info['text'][0]),)
        t2 = obj(S, 'nameB', t.size, cstr=lambda S, off: self.text if off == 0 else None)
        for s in 'AB':
            self.f[s] = obj(S, 'bf' + s, sizeof('BigFile'))
            S.ghost['done', s] = ZERO
        return [self.f['A'].base, self.f['B'].base, t.base, t2.base, self.comm, self.out.base]
    def spec(self, S, args):
        if self.null:
            e = Effect(ret=ZERO)
            e.cell(self.out.base, 4, ZERO, 'return value')
            e.check = lambda base, R, mp: self.common(base, R)
            return e
        fa, fb = args[:2]
        p = {'A': lambda S: get(S, fa, 'BigFile', 'basename'), 'B': lambda S: get(S, fb, 'BigFile', 'basename')}
        good = Effect(ret=ZERO); bad = Effect()
        for e in (good, bad):
            e.allow += [(fa, C(sizeof('BigFile'))), (fb, C(sizeof('BigFile'))), (self.out.base, C(4))]
            e.ghosts.update({('done', 'A'): ONE, ('done', 'B'): ZERO})
            e.leak_ok = True
        good.ghosts['fault'] = ZERO
        bad.ghosts.update({('err', 'A'): ONE, ('err', 'B'): ONE})
        def ok(base, R, mp):
            n = len(held(base, R))
            return self.common(base, R) + [('a name of its own: process ' + s, own_text(s, p[s], self.text)) for s in 'AB'] + \
                [('every process returns the same', lambda S: eq(self.rout(S), 0)), ('nothing but the names is kept', lambda S: TRUE if n == 2 else FALSE)]
        def ko(base, R, mp):
            n = len(held(base, R))
            return self.common(base, R) + self.blame() + [('nothing is kept', lambda S: TRUE if n == 0 else FALSE)]
        good.check, bad.check = ok, ko
        e = Effect()
        e.alts = [('done', lambda r: eq(r, 0), good), ('failed', lambda r: ne(r, 0), bad)]
        bad.anyret = True
        return e
    def compare1(self, ex, base, R, eff, mp):
        self.final = R
        return Pair.compare1(self, ex, base, R, eff, mp)

def m_blame(self):
    """there is a failure only where something failed, and its code is everyone's"""
    def q(S):
        c = S.ghost['culprit']
        return imp(or_(eq(c, self.ra), eq(c, self.rb)), eq(S.ghost['fault'], 1))
    return [('a failure is reported only where something failed', q),
            ('every process returns the code of the failing one', lambda S: and_(eq(self.rout(S), S.ghost.get('code', ZERO)), ne(self.rout(S), 0), eq(self.final.ret, self.rout(S))))]
Pair.blame = m_blame

class FileOpenPair(FilePair):
    name = 'vp_file_open'
class FileCreatePair(FilePair):
    name = 'vp_file_create'
    op = 'big_file_create'

class FileClosePair(FilePair):
    name = 'vp_file_close'
    def setup(self, ex, S, case):
        a = FilePair.setup(self, ex, S, case)
        self.n = {}
        for s in 'AB':
            self.n[s] = sstr(S, 'name' + s)
            put(S, self.f[s].base, 'BigFile', 'basename', self.n[s].base)
        return a[:2] + a[4:]
    def spec(self, S, args):
        e = Effect(ret=ZERO)
        e.cell(self.out.base, 4, ZERO, 'return value')
        if not self.null:
            e.frees += [self.n['A'], self.n['B']]
            for s in 'AB':
                e.cell(fld(self.f[s].base, 'BigFile', 'basename'), 8, ZERO, 'the file is closed: process ' + s)
        e.check = lambda base, R, mp: self.common(base, R)
        return e

# ------------------------------------------------------------------ blocks
def fill_block(S, bb, text, N, tabs, dt, nm, size, dirty, attrs=None, sums=True):
    """bb holds a block of its own: tabs gives for each table what goes into its entries (a log entry, or None)"""
    o = S.alloc('block name', parts_len(text) + 1, 'heap')
    S.push(o, ('S', ZERO, parts_len(text) + 1, text))
    put_(S, B_(bb, 'basename'), o.base)
    for f, w in (('fsize', 8), ('foffset', 8), ('fchecksum', 4)):
        o = S.alloc('block ' + f, (N + 1) * w, 'heap')
        ent = tabs.get(f)
        S.push(o, ent if ent is not None else ('F', ZERO, (N + 1) * w, ZERO))
        put_(S, B_(bb, f), o.base)
    for j in range(8):
        put_(S, B_(bb, 'dtype') + j, dt[j], 1)
    put_(S, B_(bb, 'nmemb'), nm, 4)
    put_(S, B_(bb, 'size'), size, 8)
    put_(S, B_(bb, 'Nfile'), N, 4)
    put_(S, B_(bb, 'dirty'), dirty, 4)
    at = S.alloc('block attrset', sizeof('BigAttrSet'), 'heap')
    put_(S, B_(bb, 'attrset'), at.base)
    get_ = attrs or (lambda f: var('attr_' + f, 0, 1 << 24))
    for f, w in (('dirty', 4), ('bufused', 8), ('bufsize', 8), ('listused', 8), ('listsize', 8)):
        put_(S, fld(at.base, 'BigAttrSet', f), get_(f), fs('BigAttrSet', f))
    for f, z in (('attrbuf', get_('bufsize')), ('attrlist', get_('listsize') * sizeof('BigAttr'))):
        o = S.alloc('block ' + f, z, 'heap')
        put_(S, fld(at.base, 'BigAttrSet', f), o.base)

OWNED = ('basename', 'fsize', 'foffset', 'fchecksum', 'attrset')
def parts_of(S, bb):
    """objects an open block refers to"""
    out = []
    for f in OWNED:
        p = S.rd(B_(bb, f), 8)
        if p.is_const() and p.cval() == 0:
            continue
        o, off = S.resolve(p)
        if o is None:
            raise Unsupported('block field %s' % f)
        out.append(o)
    at = S.rd(B_(bb, 'attrset'), 8)
    for f in ('attrbuf', 'attrlist'):
        out.append(S.resolve(S.rd(fld(at, 'BigAttrSet', f), 8))[0])
    return out

class Snapshot:
    def __init__(self, S, bb):
        g = lambda f: get(S, bb, 'BigBlock', f)
        self.text = S.cstr(g('basename'))
        if self.text is None:
            raise Unsupported('block of an unknown name')
        self.dt = [S.rd(B_(bb, 'dtype') + j, 1) for j in range(8)]
        self.nm, self.size, self.N, self.dirty = g('nmemb'), g('size'), g('Nfile'), g('dirty')
        self.tabs = {}
        for f, w in (('fsize', 8), ('foffset', 8), ('fchecksum', 4)):
            p = g(f)
            if p.is_const() and p.cval() == 0:
                S.require('a block without tables has no files', eq(self.N, 0))
                continue
            o, off = S.resolve(p)
            S.require('the tables are there', TRUE if o is not None and S.alive(o) and off == 0 else FALSE)
            S.require('a table has one entry more than there are files', ge(o.size, (self.N + 1) * w))
            self.tabs[f] = ('C', ZERO, (self.N + 1) * w, (o, S.mem[o.id].log, ZERO))
        at = self.at = g('attrset')
        o, off = S.resolve(at)
        S.require('the attributes are there', TRUE if o is not None and S.alive(o) else FALSE)
        self.attrs = {f: get(S, at, 'BigAttrSet', f) for f in ('dirty', 'bufused', 'bufsize', 'listused', 'listsize')}

class Broadcast(Contract):
    """call-site form of BroadcastPair"""
    name = 'big_block_mpi_broadcast'
    def __init__(self, pair):
        Contract.__init__(self)
        self.pair = pair
    def apply(self, ex, S, args):
        bb, root, comm = args
        pr = self.pair
        pr.on(S, comm)
        A = S.ghost['side'] == 'A'
        if A:
            S.require('the first process is the root', eq(root, pr.ra))
        k, ev = pr.step(S, 'broadcast', '', (root,), Snapshot(S, bb) if A else None)
        if not A:
            d = ev.data
            tabs = {f: e for f, e in d.tabs.items() if f != 'fchecksum'}
            fill_block(S, bb, d.text, d.N, tabs, d.dt, d.nm, d.size, d.dirty, attrs=lambda f: d.attrs[f])
            S.ghost['attrs of', S.ghost['side']] = d.at
        return ZERO

class BlockPair(Pair):
    """collective calls on blocks"""
    rootonly = (0,)
    inner = ()
    def uses(self):
        return {'_strdup': Strdup(), 'big_file_mpi_broadcast_anyerror': AnyError(self), 'big_block_mpi_broadcast': Broadcast(self)}
    def cases(self):
        return ['communicator', 'no communicator']
    def strings(self, S, name, small=None):
        t = sstr(S, name)
        S.assume(lt(t.info['text'][1], small or 4000))
        text = (('id', t.info['text'][0]),)
        t2 = obj(S, name + ' of B', t.size, cstr=lambda S, off: text if off == 0 else None)
        return t, t2, text
    def files(self, S):
        self.bf, self.bt = {}, {}
        t, t2, self.ftext = self.strings(S, 'file')
        for s, x in (('A', t), ('B', t2)):
            self.bf[s] = obj(S, 'bf' + s, sizeof('BigFile'))
            put(S, self.bf[s].base, 'BigFile', 'basename', x.base)
    def new_blocks(self, S):
        self.b = {s: obj(S, 'block ' + s, sizeof('BigBlock')) for s in 'AB'}
    def put_new(self, S, bb, text, N=None, fz=None, dt=None, nm=None, dirty=ZERO):
        """what the root's block is after it was opened or created"""
        N = var('Nfile', 0, MAXFILE) if N is None else N
        fz = fz or (lambda k: app('rows_of_file', k, lo=0, hi=MAXROWS))
        body = fz(Poly.atom(PLACE))
        ck = lambda k: app('sum_of_file', k, lo=-(1 << 31), hi=(1 << 31) - 1)
        S.assume(le(sum_(body, N), MAXROWS))
        tabs = dict(fsize=('H', ZERO, (N + 1) * 8, table(fz, 8)), foffset=('H', ZERO, (N + 1) * 8, table(lambda k: sum_(body, k), 8)), fchecksum=('H', ZERO, (N + 1) * 4, table(ck, 4)))
        dt = dt or [app('type_chr', C(j), lo=-128, hi=127) for j in range(8)]
        fill_block(S, bb, text, N, tabs, dt, var('members', 0, 1 << 20) if nm is None else nm, sum_(body, N), dirty)
    def same_blocks(self, S0, R, a, b, dirty=True):
        """B describes the same block as A, in memory of its own, and counts from zero"""
        out = []
        rd = lambda S, p, f: get(S, p, 'BigBlock', f)
        for f in ('nmemb', 'size', 'Nfile') + (('dirty',) if dirty else ()):
            out.append(('every process holds the same block: ' + f, lambda S, f=f: eq(rd(S, a, f), rd(S, b, f))))
        out.append(('every process holds the same block: type', lambda S: and_(*[eq(S.rd(B_(a, 'dtype') + j, 1), S.rd(B_(b, 'dtype') + j, 1)) for j in range(8)])))
        out.append(('every process holds the same block: name', lambda S: same_text(S, rd(S, a, 'basename'), S.cstr(rd(S, b, 'basename')))))
        out.append(('every process holds the same block: attributes', lambda S: TRUE if S.ghost.get(('attrs of', 'B')) == rd(S, a, 'attrset') else FALSE))
        for f, w in (('fsize', 8), ('foffset', 8)):
            def q(S, f=f, w=w):
                k = S.fresh('k', 0, MAXFILE)
                N = rd(S, b, 'Nfile')
                pa = rd(S, a, f)
                if pa.is_const() and pa.cval() == 0:
                    return eq(N, 0)
                S.assume(le(k, N) if f == 'foffset' else lt(k, N))
                return eq(S.rd(pa + k * w, w), S.rd(rd(S, b, f) + k * w, w))
            out.append(('every process holds the same block: ' + f, q))
        out.append(('the other processes count from zero', self.zero_sums(b)))
        def apart(S):
            x, y = parts_of(S, a), parts_of(S, b)
            ok = len(set(o.id for o in x + y)) == len(x) + len(y) and all(S.alive(o) for o in x + y)
            return TRUE if ok else FALSE
        out.append(('no memory is shared', apart))
        def meant(f):
            def g(S):
                if f is not apart:
                    for n in OWNED:
                        for p in (a, b):
                            v = S.rd(B_(p, n), 8)
                            if not (v.is_const() and v.cval() == 0) and S.resolve(v)[0] is None:
                                return FALSE
                try:
                    return f(S)
                except (AttributeError, TypeError, Unsupported):
                    return FALSE        # the fields do not describe a block
            return g
        return [(n, meant(f)) for n, f in out]
    def zero_sums(self, b):
        def z(S):
            k = S.fresh('k', 0, MAXFILE)
            S.assume(lt(k, get(S, b, 'BigBlock', 'Nfile')))
            p = get(S, b, 'BigBlock', 'fchecksum')
            if p.is_const() and p.cval() == 0:
                return FALSE if S.may(TRUE) else TRUE
            return eq(S.rd(p + k * 4, 4), 0)
        return z
    def kept(self, base, R, blocks):
        """memory that is held at the end is that of the blocks"""
        def q(S):
            own = set(o.id for b in blocks for o in parts_of(S, b))
            if not all(S.mem[x].alive for x in own):
                return FALSE
            had = [o.id for s in 'AB' for o in getattr(self, 'owned', {}).get(s, ())]
            return TRUE if all(x in own for x in held(base, R) + [x for x in had if S.mem[x].alive]) else FALSE
        return ('no memory or file is kept but that of the blocks', q)
    def nothing(self, S):
        e = Effect(ret=ZERO)
        e.cell(self.out.base, 4, ZERO, 'return value')
        e.check = lambda base, R, mp: self.common(base, R)
        return e
    def compare1(self, ex, base, R, eff, mp):
        self.final = R
        return Pair.compare1(self, ex, base, R, eff, mp)
    def outcome(self, S, blocks, ok, ko, frees=()):
        good = Effect(ret=ZERO); bad = Effect(anyret=True)
        for e in (good, bad):
            e.allow += [(b, C(sizeof('BigBlock'))) for b in blocks] + [(self.out.base, C(4))]
            e.leak_ok = True
        good.ghosts['fault'] = ZERO
        bad.ghosts.update({('err', 'A'): ONE, ('err', 'B'): ONE})
        good.frees += list(frees)
        good.check = lambda base, R, mp: self.common(base, R) + [('every process returns the same', lambda S: eq(self.rout(S), 0))] + ok(base, R)
        bad.check = lambda base, R, mp: self.common(base, R) + self.blame() + ko(base, R)
        e = Effect()
        e.alts = [('done', lambda r: eq(r, 0), good), ('failed', lambda r: ne(r, 0), bad)]
        return e

class OpenBlockPair(BlockPair):
    name = 'vp_open_block'
    def models(self):
        def m_open(ex, S, a):
            """decided as Open, OpenAny"""
            S.require('the root opens the block', TRUE if S.ghost['side'] == 'A' else FALSE)
            t = S.cstr(a[1])
            want = norm_parts(self.ftext + (('lit', b'/'),) + self.btext + (('lit', b'/'),))
            S.require('the path of the block', TRUE if t == want else FALSE)
            if S.nondet('open_fails'):
                S.ghost['fault'] = S.ghost['err', 'A'] = ONE
                return C(-1)
            self.put_new(S, a[0], t)
            return ZERO
        return dict(self.mpi(), _big_block_open=m_open)
    def setup(self, ex, S, case):
        self.null = case == 'no communicator'
        self.start(ex, S, self.null)
        self.files(S)
        self.new_blocks(S)
        n, n2, self.btext = self.strings(S, 'block')
        return [self.bf['A'].base, self.bf['B'].base, self.b['A'].base, self.b['B'].base, n.base, n2.base, self.comm, self.out.base]
    def spec(self, S, args):
        if self.null:
            return self.nothing(S)
        a, b = args[2:4]
        ok = lambda base, R: self.same_blocks(base, R, a, b) + [self.kept(base, R, [a, b])]
        ko = lambda base, R: [self.kept(base, R, [])]
        return self.outcome(S, [a, b], ok, ko)

from .specs_block import Tab, text_of, m_fclose_new
from .specs_record import Events
def made_range(self, ev, s, name, first, n):
    """files first .. first+n-1 and no others, each once, truncated"""
    def q(S):
        j = S.fresh('j', 0, MAXFILE)
        S.assume(lt(j, n))
        return and_(eq(ev.get(S, j, 1), first + j), eq(ev.get(S, j, 2), 1))
    def nm(S):
        j = S.fresh('j', 0, MAXFILE)
        S.assume(lt(j, n))
        return eq(ev.get(S, j, 0), name(S))
    return [('process %s creates its share of the files' % s, lambda S: eq(ev.count(S), n)), ('process %s creates each file of its share once, truncated, and no other' % s, q), ('the files are those of the block: process ' + s, nm)]

def lemma(S, name, f):
    """proved here, and kept among the facts"""
    S.oblige('lemma', name, f)
    if f is not TRUE:
        S.known.discard(id(f))
        S.assume(f)

class Sharing:
    """process r creates the files N*r/T .. N*(r+1)/T - 1 of N new ones"""
    def shares(self, N):
        T = self.nt
        return {'A': (fdivp(N * self.ra, T), fdivp(N * (self.ra + 1), T)), 'B': (fdivp(N * self.rb, T), fdivp(N * (self.rb + 1), T))}
    def cover(self, N):
        T = self.nt
        def first(S): return eq(fdivp(N * 0, T), 0)
        def last(S): return eq(fdivp(N * T, T), N)
        def mono(S):
            r = S.fresh('r', 0, NT)
            S.assume(lt(r, T))
            return le(fdivp(N * r, T), fdivp(N * (r + 1), T))
        return [('the share of the first process starts at the first file', first), ('the share of the last process ends at the last file', last),
                ('the share of a process ends where the next begins', mono)]
    def lemma(self, S, N):
        T, r = self.nt, self.rb
        for x in (self.ra, self.rb):
            lemma(S, 'a product of numbers that are not negative is not negative', ge(N * (T - 1 - x), 0))
            lemma(S, 'a share ends where it starts, or later', le(fdivp(N * x, T), fdivp(N * (x + 1), T)))
            lemma(S, 'a share ends at the last file, or earlier', le(fdivp(N * (x + 1), T), N))
    def events(self, S):
        self.made = {s: Events(S, 'created files ' + s, 3) for s in 'AB'}
    def m_file(self):
        def m(ex, S, a):
            base, fid, mode, rs = a
            o, off = S.resolve(base)
            if o is None:
                raise Unsupported('file of an unknown block')
            S.require('the block name is not released', TRUE if S.alive(o) else FALSE)
            side = S.ghost['side']
            if S.nondet('open_fails'):
                S.ghost['fault'] = ONE
                if S.decide(ne(rs, 0)):
                    S.ghost['err', side] = ONE
                return ZERO
            ps = S.cstr(mode)
            if ps is None or len(ps) != 1 or ps[0][0] != 'lit':
                raise Unsupported('file mode')
            self.made[side].add(S, [base, fid, ONE if ps[0][1][:1] == b'w' else ZERO])
            return S.alloc('FILE', C(8), 'file').base
        return m
    def made_all(self, base, R, a, b, first, N):
        out = []
        sh = self.shares(N)
        for s, bb in (('A', a), ('B', b)):
            lo, hi = sh[s]
            out += made_range(self, self.made[s], s, lambda S, bb=bb: get(S, bb, 'BigBlock', 'basename'), first + lo, hi - lo)
        return out + self.cover(N)

class CreateBlocksPair(BlockPair, Sharing):
    name = 'vp_create_blocks'
    rootonly = (0, 1)
    def models(self):
        def m_mksub(ex, S, a):
            """decided as MakeDirs"""
            S.require('the root makes the directories', TRUE if S.ghost['side'] == 'A' else FALSE)
            S.require('the directories of the block', TRUE if S.cstr(a[0]) == self.ftext and S.cstr(a[1]) == self.btext else FALSE)
            S.ghost['dirs'] = S.ghost['dirs'] + 1
            if S.nondet('mksubdir_fails'):
                S.ghost['fault'] = S.ghost['err', 'A'] = ONE
                return C(-1)
            return ZERO
        def m_create(ex, S, a):
            """decided as CreateInternal"""
            bb, name, dt, nm, N, fz = a
            S.require('the root makes the block', TRUE if S.ghost['side'] == 'A' else FALSE)
            S.require('its directory is there', eq(S.ghost['dirs'], 1))
            t = S.cstr(name)
            want = norm_parts(self.ftext + (('lit', b'/'),) + self.btext + (('lit', b'/'),))
            S.require('the path of the block', TRUE if t == want else FALSE)
            S.require('type, members and number of files are those asked for', and_(eq(dt, self.dt.base), eq(nm, self.nm), eq(N, self.N), eq(fz, self.tab['A'].o.base)))
            if S.nondet('create_fails'):
                S.ghost['fault'] = S.ghost['err', 'A'] = ONE
                return C(-1)
            self.put_new(S, bb, t, N, self.tab['A'].fn, nm=nm)
            return ZERO
        return dict(self.mpi(), _big_file_mksubdir_r=m_mksub, _big_block_create_internal=m_create, _big_file_open_a_file=self.m_file(), fclose=m_fclose_new)
    def setup(self, ex, S, case):
        self.null = case == 'no communicator'
        self.start(ex, S, self.null)
        self.files(S)
        self.new_blocks(S)
        self.events(S)
        S.ghost['dirs'] = ZERO
        GHOST_FREE.add('dirs')
        n, n2, self.btext = self.strings(S, 'block')
        self.dt, dt2, self.dtext = self.strings(S, 'dtype', 8)
        self.N, self.nm = var('Nfile', 0, MAXFILE), var('nmemb', 0, 1 << 20)
        self.lemma(S, self.N)
        self.tab = {}
        for s in 'AB':
            self.tab[s] = Tab(S, 'fsize', self.N)
        S.assume(le(sum_(self.tab['A'].fn(Poly.atom(PLACE)), self.N), MAXROWS))
        return [self.bf['A'].base, self.bf['B'].base, self.b['A'].base, self.b['B'].base, n.base, n2.base, self.dt.base, dt2.base,
                self.nm, self.N, self.tab['A'].o.base, self.tab['B'].o.base, self.comm, self.out.base]
    def spec(self, S, args):
        if self.null:
            return self.nothing(S)
        a, b = args[2:4]
        ok = lambda base, R: self.same_blocks(base, R, a, b) + [self.kept(base, R, [a, b])] + self.made_all(base, R, a, b, ZERO, self.N)
        ko = lambda base, R: [self.kept(base, R, [])]
        return self.outcome(S, [a, b], ok, ko)

# ------------------------------------------------------------------ collecting checksums; growing, flushing, closing
class OpenPair(BlockPair, Sharing):
    """a block that is open on every process: the same description, counts of each process its own"""
    def cases(self):
        return ['block with files', 'block without files', 'no communicator']
    def blocks(self, ex, S, case):
        self.null = case == 'no communicator'
        self.start(ex, S, self.null)
        self.meta = case == 'block without files'
        self.B = {}
        for s in 'AB':
            b = self.B[s] = Block(S, tag='block ' + s, like='x', meta=self.meta)
            for j in range(8):
                o, off = S.resolve(B_(b.p, 'dtype'))
                S.push(o, ('W', off + j, C(1), app('type_chr', C(j), lo=-128, hi=127)))
            n, m = var('attrbytes_' + s, 0, 1 << 30), var('attrcount_' + s, 0, 1 << 24)
            at = b.ao.base
            for f, o in (('attrbuf', obj(S, 'attrbuf ' + s, n)), ('attrlist', obj(S, 'attrlist ' + s, m * sizeof('BigAttr')))):
                put(S, at, 'BigAttrSet', f, o.base)
            for f in ('bufused', 'bufsize', 'listused', 'listsize'):
                put(S, at, 'BigAttrSet', f, var('attr_%s_%s' % (f, s), 0, 1 << 24))
            put(S, at, 'BigAttrSet', 'dirty', var('attrdirty_' + s, -(1 << 31), (1 << 31) - 1))
            b.anydirty = var('dirty_' + s, -(1 << 31), (1 << 31) - 1)
            put(S, b.p, 'BigBlock', 'dirty', b.anydirty)
        self.owned = {s: parts_of(S, self.B[s].p) for s in 'AB'}
        GHOST_FREE.update(('gave', 'saved'))
        S.ghost['saved'] = None
        return self.B['A'].p, self.B['B'].p
    def reduce(self):
        def m_reduce(ex, S, a):
            sb, rb, n, t, op, root, comm = a
            self.on(S, comm)
            w = self.width(S, t)
            side = S.ghost['side']
            o = gname(S, op)
            if sb.is_const() and sb.cval() == 1:
                raise Unsupported('reduction in place')
            S.require('message length is not negative', ge(n, 0))
            empty = S.decide(eq(n, 0))
            if side == 'A':
                S.require('the first process is the root', eq(root, self.ra))
            k, ev = self.step(S, 'reduce', o, (n, C(w), root))
            if empty:
                S.ghost['gave', side, k] = None
                return ZERO
            so, soff = S.access(sb, n * w, 'read')
            S.ghost['gave', side, k] = (so, S.mem[so.id].log, soff)
            if o == 'ompi_mpi_op_sum':
                if gname(S, t) != 'ompi_mpi_unsigned':
                    raise Unsupported('sum of other than unsigned numbers')
                if side == 'A':
                    ro, roff = S.access(rb, n * w, 'write')
                    S.ex.note_write(S, ro, roff, n * w)
                    S.push(ro, ('H', roff, n * w, table_at(roff, lambda j: self.total(k, j), w)))
            elif o == 'ompi_mpi_op_lor':
                S.require('one number', eq(n, 1))
                v = S.load(sb, w)
                r = app('shared_or', C(k), lo=0, hi=1)
                S.assume(imp(ne(v, 0), eq(r, 1)))
                if side == 'A':
                    S.store(rb, w, r)
            elif o == 'ompi_mpi_op_max':
                S.require('one number', eq(n, 1))
                v = S.load(sb, w)
                r = app('shared_max', C(k), lo=-(1 << 31), hi=(1 << 31) - 1)
                S.assume(ge(r, v))
                if side == 'A':
                    S.store(rb, w, r)
            else:
                raise Unsupported('reduction')
            return ZERO
        return dict(self.mpi(), MPI_Reduce=m_reduce)
    def total(self, k, j):
        """the sum over all processes of entry j of what each gave at step k"""
        return app('shared_sum', C(k), P(j), lo=-(1 << 31), hi=(1 << 31) - 1)
    def sum_step(self, S):
        ks = [k for k, e in enumerate(S.ghost['sent']) if e.op == 'reduce' and e.what == 'ompi_mpi_op_sum']
        if len(ks) != 1:
            raise Unsupported('sums collected %d times' % len(ks))
        return ks[0]
    def given(self, base, R):
        """each process gives its own counts, once, and the root puts the totals into the block"""
        out = []
        if self.meta:
            return out
        for s in 'AB':
            def q(S, s=s):
                k = self.sum_step(S)
                j = S.fresh('j', 0, MAXFILE)
                S.assume(lt(j, self.B[s].Nfile))
                g = S.ghost.get(('gave', s, k))
                if g is None:
                    return FALSE if S.may(TRUE) else TRUE
                return eq(read_log(S, g[0], g[1], g[2] + j * 4, 4), self.B[s].ck(j))
            def n(S, s=s):
                return eq(S.ghost['sent'][self.sum_step(S)].params[0], self.B[s].Nfile)
            out.append(('what process %s gives to the total are its own counts' % s, q))
            out.append(('a count for every file: process ' + s, n))
        return out
    def totals(self, R, a, N, beyond=None):
        def q(S):
            k = self.sum_step(S)
            j = S.fresh('j', 0, MAXFILE)
            S.assume(lt(j, get(S, a, 'BigBlock', 'Nfile')))
            v = S.rd(get(S, a, 'BigBlock', 'fchecksum') + j * 4, 4)
            if beyond is not None and S.decide(ge(j, N)):
                return eq(v, beyond)
            return eq(v, self.total(k, j))
        return [] if self.meta and beyond is None else [('the root holds the totals', q)]
    def sync(self, ex, S, a):
        pass

def table_at(base, fn, w):
    t = table(fn, w)
    return lambda S, off, n: t(S, off - base, n)

class GrowPair(OpenPair):
    name = 'vp_grow'
    def models(self):
        def m_grow(ex, S, a):
            """decided as GrowInternal"""
            bb, n, fg = a
            S.require('the root grows the block', and_(eq(bb, self.B['A'].p), eq(n, self.n), eq(fg, self.tab['A'].o.base)))
            b = self.B['A']
            N0 = b.Nfile
            N = N0 + n
            S.require('number of files', and_(ge(n, 0), le(N, MAXFILE)))
            if S.nondet('grow_fails'):
                S.ghost['fault'] = S.ghost['err', 'A'] = ONE
                return C(-1)
            for f, w, fn in (('fsize', 8, self.fz), ('foffset', 8, lambda k: sum_(self.body, P(k))), ('fchecksum', 4, None)):
                old = S.rd(B_(bb, f), 8)
                o = S.alloc('grown ' + f, (N + 1) * w, 'heap')
                if fn is not None:
                    S.push(o, ('H', ZERO, (N + 1) * w, table(fn, w)))
                else:
                    S.push(o, ('F', ZERO, (N + 1) * w, ZERO))
                    if not self.meta:
                        oo = S.resolve(old)[0]
                        S.push(o, ('C', ZERO, N0 * w, (oo, S.mem[oo.id].log, ZERO)))
                MODELS['free'](ex, S, [old])
                put_(S, B_(bb, f), o.base)
            put_(S, B_(bb, 'size'), sum_(self.body, N), 8)
            put_(S, B_(bb, 'Nfile'), N, 4)
            put_(S, B_(bb, 'dirty'), ONE, 4)
            return ZERO
        return dict(self.reduce(), _big_block_grow_internal=m_grow, _big_file_open_a_file=self.m_file(), fclose=m_fclose_new)
    def setup(self, ex, S, case):
        a, b = self.blocks(ex, S, case)
        self.events(S)
        self.n = var('Nfile_grow', 0, MAXFILE)
        N0 = self.B['A'].Nfile
        S.assume(le(N0 + self.n, MAXFILE))
        self.lemma(S, self.n)
        self.tab = {s: Tab(S, 'fsize_grow', self.n) for s in 'AB'}
        g = self.tab['A'].fn
        self.fz = g if self.meta else (lambda k: ite(lt(k, N0), self.B['A'].fz(k), g(k - N0)))
        self.body = self.fz(Poly.atom(PLACE))
        S.assume(le(sum_(self.body, N0 + self.n), MAXROWS))
        return [a, b, self.n, self.tab['A'].o.base, self.tab['B'].o.base, self.comm, self.out.base]
    def spec(self, S, args):
        if self.null:
            return self.nothing(S)
        a, b = args[:2]
        N0 = self.B['A'].Nfile
        def rows(S):
            k = S.fresh('k', 0, MAXFILE)
            S.assume(lt(k, N0 + self.n))
            return eq(S.rd(get(S, a, 'BigBlock', 'fsize') + k * 8, 8), self.fz(k))
        def ok(base, R):
            return self.same_blocks(base, R, a, b) + [self.kept(base, R, [a, b])] + self.made_all(base, R, a, b, N0, self.n) + self.given(base, R) \
                + self.totals(R, a, N0, ZERO) + [('rows of every file', rows), ('the number of files', lambda S: eq(get(S, a, 'BigBlock', 'Nfile'), N0 + self.n))]
        ko = lambda base, R: [self.kept(base, R, [a, b]), ('the counts are not counted twice', self.zero_sums(b) if not self.meta else (lambda S: TRUE))] + self.given(base, R)
        e = self.outcome(S, [a, b], ok, ko)
        return self.loose(e)
    def loose(self, e):
        """the tables the blocks had may be replaced; their checksums change hands"""
        for nm, c, x in e.alts:
            x.allow.append((fld(self.B['A'].ao.base, 'BigAttrSet', 'dirty'), C(4)))
            x.dead_ok = set(o.id for s in 'AB' for o in self.owned[s])
            for s in 'AB':
                if not self.meta:
                    x.allow.append((self.B[s].fchecksum.base, self.B[s].Nfile * 4))
        return e

class FlushPair(OpenPair):
    name = 'vp_flush'
    final = False
    def models(self):
        def m_flush(ex, S, a):
            """decided as Flush: saves what is marked unsaved, or reports failure"""
            bb, = a
            S.require('the root saves the block', TRUE if S.ghost['side'] == 'A' else FALSE)
            S.require('its own block', eq(bb, self.B['A'].p))
            S.require('saved once', TRUE if S.ghost['saved'] is None else FALSE)
            # what is saved: the totals, when anything changed anywhere
            d = get(S, bb, 'BigBlock', 'dirty')
            S.ghost['saved'] = d
            for nm, q in self.totals(S, bb, self.B['A'].Nfile):
                for s, f in ex.explore(S.copy(), q):
                    try:
                        ex.obligation(s, 'requires', 'when saved: ' + nm, f)
                    except PathEnd:
                        pass
            at = get(S, bb, 'BigBlock', 'attrset')
            if S.nondet('flush_fails'):
                S.ghost['fault'] = S.ghost['err', 'A'] = ONE
                return C(-1)
            put_(S, B_(bb, 'dirty'), ZERO, 4)
            put_(S, fld(at, 'BigAttrSet', 'dirty'), ZERO, 4)
            return ZERO
        return dict(self.reduce(), big_block_flush=m_flush)
    def setup(self, ex, S, case):
        a, b = self.blocks(ex, S, case)
        return [a, b, self.comm, self.out.base]
    def must_save(self):
        def q(S):
            d = S.ghost['saved']
            return FALSE if d is None else imp(or_(ne(self.B['A'].anydirty, 0), ne(self.B['B'].anydirty, 0)), ne(d, 0))
        return [('a change on any process is saved', q)]
    def spec(self, S, args):
        if self.null:
            return self.nothing(S)
        a, b = args[:2]
        def ok(base, R):
            return self.same_blocks(base, R, a, b) + [self.kept(base, R, [a, b])] + self.given(base, R) + self.totals(R, a, self.B['A'].Nfile) + self.must_save() + \
                [('nothing is left to save', lambda S: and_(eq(get(S, a, 'BigBlock', 'dirty'), 0), eq(get(S, b, 'BigBlock', 'dirty'), 0)))]
        ko = lambda base, R: [self.kept(base, R, [a, b]), ('the counts are not counted twice', self.zero_sums(b) if not self.meta else (lambda S: TRUE))] + self.given(base, R) \
            + self.totals(R, a, self.B['A'].Nfile) + self.must_save()
        return GrowPair.loose(self, self.outcome(S, [a, b], ok, ko))

class ClosePair(FlushPair):
    """closing: saves once, and gives back everything the block owns on every process, saved or not"""
    name = 'vp_close'
    def cases(self):
        return ['block with files', 'block without files']
    def spec(self, S, args):
        a, b = args[:2]
        def both(base, R):
            gone = lambda S: TRUE if not held(base, R) and not any(S.mem[o.id].alive for s in 'AB' for o in self.owned[s]) else FALSE
            return [('everything the block owned is given back', gone)] + self.given(base, R) + self.must_save()
        return GrowPair.loose(self, self.outcome(S, [a, b], both, both))

# ------------------------------------------------------------------ splitting rows over files
def split_rows(S, tabp, N, size):
    """tabp has N entries that add up to size and differ by at most one: every entry is the difference of
    consecutive values of a function that goes from 0 to size, and is the quotient of size by N or one more"""
    if S.decide(eq(N, 0)):
        return
    q = fdivp(size, N)
    rest = size - q * N
    lemma(S, 'the remainder is less than the number of files', and_(le(0, rest), lt(rest, N)))
    ways = [lambda k: q * k + fdivp(rest * k, N),
            lambda k: fdivp(size * k, N),
            lambda k: q * k + ite(lt(k, rest), k, rest),
            lambda k: q * k + ite(lt(k, N - rest), ZERO, k - (N - rest))]
    k = S.fresh('file', 0, MAXFILE)
    def entry(S):
        S.assume(lt(k, N))
        return S.rd(tabp + k * 8, 8)
    found = None
    for g in ways:
        T = S.copy()
        v = entry(T)
        if T.must(eq(v, g(k + 1) - g(k))):
            found = g
            break
    g = found or ways[0]
    S.oblige('ensures', 'the sizes of the files divide all rows: from nothing', eq(g(ZERO), 0))
    S.oblige('ensures', 'the sizes of the files divide all rows: up to all', eq(g(N), size))
    for T, f in S.ex.explore(S.copy(), lambda S: (entry(S), S)):
        v, T = f
        T.oblige('ensures', 'the sizes of the files divide all rows: file by file', eq(v, g(k + 1) - g(k)))
        if found is ways[1]:
            # size * k = N * a + b
            a = fdivp(size * k, N)
            lemma(T, 'a step is a quotient', le(a + q, fdivp(size * (k + 1), N)))
        T.oblige('ensures', 'sizes differ by at most one row: no less than the quotient', le(q, v))
        T.oblige('ensures', 'sizes differ by at most one row: at most one more', le(v, q + 1))

class SplitCreate(Contract):
    """rows are split evenly; everything else is what the call with a table does"""
    name = 'big_file_mpi_create_block'
    mods = ('mpi', 'bigfile')
    inner = '_big_file_mpi_create_block'
    def models(self):
        def m_inner(ex, S, a):
            *rest, N, tab, comm = a
            for n, x, y in zip(('file', 'block', 'name', 'type', 'members'), rest, self.rest):
                S.require('passed on: ' + n, eq(x, y))
            S.require('passed on: communicator', eq(comm, self.comm))
            S.require('passed on: number of files', eq(N, self.N))
            S.ghost['calls'] = S.ghost['calls'] + 1
            split_rows(S, tab, self.N, self.size)
            return self.r
        def m_rank(ex, S, a):
            S.require('the communicator given', eq(a[0], self.comm))
            S.store(a[1], 4, var('rank', 0, NT))
            return ZERO
        return {self.inner: m_inner, 'MPI_Comm_rank': m_rank}
    def common(self, S):
        self.N, self.size = var('Nfile', 0, MAXFILE), var('rows', 0, 1 << 62)
        S.assume(imp(eq(self.N, 0), eq(self.size, 0)))
        self.comm = obj(S, 'comm', 8).base
        self.r = var('result', -(1 << 31), (1 << 31) - 1)
        S.ghost['calls'] = ZERO
        GHOST_FREE.add('calls')
    def setup(self, ex, S, case):
        self.common(S)
        self.rest = [obj(S, 'bf', sizeof('BigFile')).base, obj(S, 'block', sizeof('BigBlock')).base, obj(S, 'name', var('n', 1, 8000)).base, obj(S, 'dtype', var('m', 1, 8000)).base, var('nmemb', 0, 1 << 20)]
        return self.rest + [self.N, self.size, self.comm]
    def spec(self, S, args):
        e = Effect()
        e.ret = self.r
        e.check = lambda base, R, mp: [('the table is handed over once', lambda S: eq(S.ghost['calls'], 1))]
        return e

class SplitGrow(SplitCreate):
    name = 'big_block_mpi_grow_simple'
    inner = 'big_block_mpi_grow'
    def setup(self, ex, S, case):
        self.common(S)
        self.rest = [obj(S, 'block', sizeof('BigBlock')).base]
        return self.rest + [self.N, self.size, self.comm]
