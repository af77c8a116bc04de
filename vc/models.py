"""Assumed contracts of the C library functions the code calls."""
from .term import *
from .exec import *
from .exec import norm_parts, parts_len, lit

MODELS = {}
def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d

def szarg(S, p):
    """size_t argument as an unsigned quantity; a huge value means an impossible request"""
    return p

@model('malloc')
def m_malloc(ex, S, a):
    n = a[0]
    S.oblige('overflow', 'allocation size is not negative', ge(n, 0))
    S.assume(ge(n, 0))
    if ex.malloc_may_fail and S.nondet('malloc_fails'):
        S.ghost['fault'] = ONE
        return ZERO
    return S.alloc('malloc', n, 'heap').base

@model('calloc')
def m_calloc(ex, S, a):
    n = a[0] * a[1]
    f = and_(ge(a[0], 0), ge(n, 0))
    S.oblige('overflow', 'allocation size is not negative', f)
    S.assume(f)
    if ex.malloc_may_fail and S.nondet('malloc_fails'):
        S.ghost['fault'] = ONE
        return ZERO
    o = S.alloc('calloc', n, 'heap')
    S.push(o, ('F', ZERO, n, ZERO))
    return o.base

@model('free')
def m_free(ex, S, a):
    p = a[0]
    if p.is_const() and p.cval() == 0:
        return None
    o, off = S.resolve(p)
    if o is None:
        if S.decide(eq(p, 0)):
            return None
        S.oblige('memory', 'free of an invalid pointer', FALSE)
        raise PathEnd()
    S.oblige('memory', 'free of the start of an allocation', eq(off, 0))
    if o.kind != 'heap':
        S.oblige('memory', 'free of %s memory' % o.kind, FALSE)
        raise PathEnd()
    if not S.alive(o):
        S.oblige('memory', 'double free of %s' % o.name, FALSE)
        raise PathEnd()
    S.free(o)
    return None

@model('realloc')
def m_realloc(ex, S, a):
    p, n = a
    S.oblige('overflow', 'allocation size is not negative', ge(n, 0))
    S.assume(ge(n, 0))
    new = S.alloc('realloc', n, 'heap')
    if p.is_const() and p.cval() == 0:
        return new.base
    o, off = S.resolve(p)
    if o is None or not S.alive(o) or o.kind != 'heap':
        S.oblige('memory', 'realloc of an invalid pointer', FALSE)
        raise PathEnd()
    S.oblige('memory', 'realloc of the start of an allocation', eq(off, 0))
    ln = o.size if S.decide(le(o.size, n)) else n
    S.push(new, ('C', ZERO, ln, (o, S.mem[o.id].log, ZERO)))
    S.free(o)
    return new.base

@model('memset')
def m_memset(ex, S, a):
    p, c, n = a[0], a[1], a[2]
    if n.is_const() and n.cval() == 0:
        return p
    S.oblige('memory', 'memset length is not negative', ge(n, 0)); S.assume(ge(n, 0))
    if not n.is_const() and S.decide(eq(n, 0)):
        return p
    o, off = S.access(p, n, 'write')
    if isinstance(c, Poly) and not c.is_const():
        c = ex.wrap(S, c, 8)
    S.fill(o, off, n, c)
    h = ex.models.get('#range_written')
    if h:
        h(ex, S, o, off, n, None)
    return p

@model('memcpy')
def m_memcpy(ex, S, a, move=False):
    d, s, n = a[0], a[1], a[2]
    if n.is_const() and n.cval() == 0:
        return d
    S.oblige('memory', 'copy length is not negative', ge(n, 0)); S.assume(ge(n, 0))
    if not n.is_const() and S.decide(eq(n, 0)):
        return d
    so, soff = S.access(s, n, 'read')
    do, doff = S.access(d, n, 'write')
    if so is do and not move:
        f = or_(ge(doff, soff + n), ge(soff, doff + n), eq(doff, soff))
        S.oblige('memory', 'memcpy ranges do not overlap', f)
    S.bulk_copy(do, doff, so, soff, n)
    h = ex.models.get('#range_written')
    if h:
        h(ex, S, do, doff, n, (so, soff))
    return d

@model('memmove')
def m_memmove(ex, S, a):
    return m_memcpy(ex, S, a, move=True)

def need_cstr(ex, S, p, what='string'):
    o, off = S.resolve(p)
    if o is None:
        S.oblige('memory', '%s argument is a valid pointer' % what, FALSE)
        raise PathEnd()
    if not S.alive(o):
        S.oblige('memory', '%s argument is not freed' % what, FALSE)
        raise PathEnd()
    return S.cstr(p)

def sym_bytes(S, p, maxn):
    """bytes of the string at p up to (excluding) NUL or maxn; forks on NUL tests"""
    out = []
    for j in range(maxn):
        o, off = S.access(p + j, 1, 'read')
        c = S.read(o, off, 1)
        if S.decide(eq(c, 0)):
            return out, True
        out.append(c)
    return out, False

@model('strlen')
def m_strlen(ex, S, a):
    ps = need_cstr(ex, S, a[0])
    if ps is not None:
        return parts_len(ps)
    bs, nul = sym_bytes(S, a[0], 64)
    if not nul:
        raise Unsupported('strlen of unknown string')
    return C(len(bs))

@model('strcmp')
def m_strcmp(ex, S, a):
    x, y = need_cstr(ex, S, a[0]), need_cstr(ex, S, a[1])
    if x is not None and y is not None:
        if x == y:
            return ZERO
        if len(x) <= 1 and len(y) <= 1 and all(p[0] == 'lit' for p in x + y):
            bx = x[0][1] if x else b''
            by = y[0][1] if y else b''
            return C(-1 if bx < by else 1)
        for k in ex.models.get('#strcmp', ()):
            r = k(ex, S, x, y)
            if r is not None:
                return r
        if all(p[0] == 'lit' for p in x):
            return sym_cmp_parts(S, x, y)
        if all(p[0] == 'lit' for p in y):
            return sym_cmp_parts(S, y, x)
        raise Unsupported('strcmp %r %r' % (x, y))
    # byte by byte
    for j in range(24):
        o, off = S.access(a[0] + j, 1, 'read'); c = S.read(o, off, 1)
        o, off = S.access(a[1] + j, 1, 'read'); d = S.read(o, off, 1)
        if not S.decide(eq(c, d)):
            return C(1) if S.decide(gt(ex.to_unsigned(S, c, 8), ex.to_unsigned(S, d, 8))) else C(-1)
        if S.decide(eq(c, 0)):
            return ZERO
    raise Unsupported('strcmp')

def sym_cmp_parts(S, x, y):
    """literal against abstract string: equality is an uninterpreted fact"""
    if len(x) <= 1 and len(y) == 1 and y[0][0] == 'id':
        from .exec import part_len
        b = x[0][1] if x else b''
        if not S.decide(eq(part_len(y[0]), len(b))):
            return C(1)
        for j, c in enumerate(b):
            if not S.decide(eq(app('chr_id', y[0][1], C(j), lo=-128, hi=127), wrap_const(c, 8))):
                return C(1)
        return ZERO
    name = 'streq_%s' % '_'.join(str(p[1]) for p in x)
    r = app(name, *[p[1] for p in y if isinstance(p[1], Poly)], lo=0, hi=1)
    if S.decide(eq(r, 1)):
        return ZERO
    return C(1)

@model('strchr')
def m_strchr(ex, S, a):
    ps = need_cstr(ex, S, a[0])
    c = a[1]
    if ps is not None and c.is_const():
        ch = c.cval() & 255
        pos = ZERO
        for p in ps:
            if p[0] == 'lit':
                j = p[1].find(bytes([ch]))
                if j >= 0:
                    return a[0] + pos + j
                pos = pos + len(p[1])
            elif p[0] == 'id':
                # does the abstract string contain the character?
                r = app('haschr_%d' % ch, p[1], lo=0, hi=1)
                if S.decide(eq(r, 1)):
                    from .exec import part_len
                    x = app('chrpos_%d' % ch, p[1], lo=0, hi=1 << 30)
                    S.assume(and_(lt(x, part_len(p)), eq(app('chr_id', p[1], x, lo=-128, hi=127), wrap_const(ch, 8))))
                    return a[0] + pos + x
                from .exec import part_len
                pos = pos + part_len(p)
            elif p[0] == 'pre':
                raise Unsupported('strchr in part of a text')
            else:
                from .exec import part_len
                if ch in b' \t\n/':
                    pos = pos + part_len(p)
                else:
                    raise Unsupported('strchr in formatted text')
        if ch == 0:
            return a[0] + pos
        return ZERO
    raise Unsupported('strchr of unknown string')

@model('strncpy')
def m_strncpy(ex, S, a):
    d, s, n = a
    if not n.is_const():
        ps = need_cstr(ex, S, s)
        if ps is not None and S.must(eq(parts_len(ps), n)):
            # copies exactly the characters, no terminator
            o, off = S.access(d, n, 'write')
            so, soff = S.resolve(s)
            if S.decide(gt(n, 0)):
                S.bulk_copy(o, off, so, soff, n)
            return d
        raise Unsupported('strncpy with symbolic count')
    n = n.cval()
    bs = []
    nul = False
    for j in range(n):
        if not nul:
            o, off = S.access(s + j, 1, 'read')
            c = S.read(o, off, 1)
            if S.decide(eq(c, 0)):
                nul = True
                c = ZERO
        else:
            c = ZERO
        bs.append(c)
    for j, c in enumerate(bs):
        S.store(d + j, 1, c)
    return d

@model('strcpy')
def m_strcpy(ex, S, a):
    ps = need_cstr(ex, S, a[1])
    if ps is None:
        bs, nul = sym_bytes(S, a[1], 64)
        if not nul:
            raise Unsupported('strcpy of unknown string')
        for j, c in enumerate(bs + [ZERO]):
            S.store(a[0] + j, 1, c)
        return a[0]
    put_string(ex, S, a[0], ps)
    return a[0]

def put_string(ex, S, d, ps):
    L = parts_len(ps)
    o, off = S.access(d, L + 1, 'write')
    S.ex.note_write(S, o, off, L + 1)
    if len(ps) == 0 or (len(ps) == 1 and ps[0][0] == 'lit' and len(ps[0][1]) <= 24):
        b = (ps[0][1] if ps else b'') + b'\0'
        for j, c in enumerate(b):
            S.push(o, ('W', off + j, C(1), C(wrap_const(c, 8))))
        return
    S.push(o, ('S', off, L + 1, ps))

@model('strcat')
def m_strcat(ex, S, a):
    x, y = need_cstr(ex, S, a[0]), need_cstr(ex, S, a[1])
    if x is None or y is None:
        raise Unsupported('strcat of unknown string')
    put_string(ex, S, a[0] + parts_len(x), y)
    # the whole is one string again
    o, off = S.resolve(a[0])
    S.push(o, ('S', off, parts_len(x) + parts_len(y) + 1, norm_parts(x + y)))
    return a[0]

import re
FMT = re.compile(rb'%([-+ 0#]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|t|z|j)?([diouxXeEfgGcsp%])')
def format_parts(ex, S, fmt, args, keep=False):
    """parts of the formatted string; fmt must be a literal"""
    ps = need_cstr(ex, S, fmt)
    if ps is None or any(p[0] != 'lit' for p in ps):
        return None
    b = ps[0][1] if ps else b''
    out = []
    i = 0
    args = list(args)
    while i < len(b):
        m = FMT.match(b, i)
        if b[i:i+1] != b'%':
            j = b.find(b'%', i)
            j = len(b) if j < 0 else j
            out.append(('lit', b[i:j]))
            i = j
            continue
        if not m:
            raise Unsupported('format %r' % b)
        conv = m.group(5)
        if conv == b'%':
            out.append(('lit', b'%'))
        else:
            v = args.pop(0)
            spec = m.group(0)[1:].decode()
            if conv == b's':
                if m.group(0) != b'%s':
                    raise Unsupported('format %r' % b)
                sp = need_cstr(ex, S, v)
                if sp is None:
                    sp = (('id', app('str_at', v)),)
                out.extend(sp)
            elif v.is_const() and conv in b'diuxXc' and not (keep and conv != b'c'):
                w = {b'l': 64, b'll': 64, b't': 64, b'z': 64, b'j': 64}.get(m.group(4), 32)
                c = v.cval()
                if conv in b'uxX':
                    c &= (1 << w) - 1
                else:
                    c = wrap_const(c, w)
                if conv == b'c':
                    out.append(('lit', bytes([c & 255])))
                else:
                    pf = ('%' + m.group(1).decode() + m.group(2).decode() + ('d' if conv == b'u' else conv.decode())) % c
                    out.append(('lit', pf.encode()))
            else:
                out.append(('fmt', spec, v))
        i = m.end()
    return norm_parts(out)

@model('sprintf')
def m_sprintf(ex, S, a):
    ps = format_parts(ex, S, a[1], a[2:])
    if ps is None:
        raise Unsupported('sprintf with an unknown format')
    put_string(ex, S, a[0], ps)
    return parts_len(ps)

@model('atoi')
def m_atoi(ex, S, a):
    ps = need_cstr(ex, S, a[0])
    if ps is not None and all(p[0] == 'lit' for p in ps):
        b = ps[0][1] if ps else b''
        m = re.match(rb'[ \t\n\v\f\r]*([+-]?\d+)', b)
        return C(wrap_const(int(m.group(1)), 32)) if m else ZERO
    # symbolic characters: read digits until a non-digit
    val = ZERO
    neg = False
    p = a[0]
    j = 0
    def rd(j):
        o, off = S.access(p + j, 1, 'read')
        return S.read(o, off, 1)
    for _ in range(16):
        c = rd(j)
        if S.decide(or_(eq(c, 32), and_(ge(c, 9), le(c, 13)))):
            j += 1
            continue
        break
    if S.decide(eq(c, 45)):
        neg = True; j += 1
    elif S.decide(eq(c, 43)):
        j += 1
    for _ in range(12):
        c = rd(j)
        if not S.decide(and_(ge(c, 48), le(c, 57))):
            break
        val = val * 10 + c - 48
        j += 1
    else:
        raise Unsupported('atoi of a long string')
    return -val if neg else val

@model('abort', 'exit')
def m_abort(ex, S, a):
    raise PathEnd()

@model('strerror')
def m_strerror(ex, S, a):
    return Obj_static(ex, S, 'strerror').base

@model('__errno_location')
def m_errno(ex, S, a):
    return Obj_static(ex, S, 'errno', 4).base

_static = {}
def Obj_static(ex, S, name, size=None):
    o = _static.get(name)
    if o is None:
        kw = {}
        if size is None:
            kw['cstr'] = lambda S, off, name=name: (('id', app('static_' + name, off)),)
        o = Obj(name, size, 'static', frame_free=True, **kw)
        _static[name] = o
    if o.id not in S.mem:
        S.add(o)
    return o

@model('fprintf')
def m_fprintf(ex, S, a):
    return S.fresh('fprintf', -1, 1 << 30)

@model('memcmp')
def m_memcmp(ex, S, a):
    p, q, n = a
    if not (n.is_const() and n.cval() in (1, 2, 4, 8)):
        raise Unsupported('memcmp')
    same = eq(S.load(p, n.cval()), S.load(q, n.cval()))
    if S.decide(same):
        return ZERO
    return ONE if S.nondet('memcmp_sign') else C(-1)
