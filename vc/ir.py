"""Parser for the textual LLVM IR that clang emits from the real /repo sources."""
import re, os, subprocess, hashlib

LLVM = '/usr/lib/llvm-18/bin'
if not os.path.exists(LLVM + '/clang'):
    LLVM = ''

class IRError(Exception):
    pass

def tool(n):
    p = os.path.join(LLVM, n)
    return p if LLVM and os.path.exists(p) else n

TOK = re.compile(r'''\s*(?:
 (?P<str>c?"(?:[^"\\]|\\.)*") |
 (?P<lid>%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) |
 (?P<gid>@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) |
 (?P<md>!(?:[a-zA-Z0-9_.]+)?) |
 (?P<attr>\#\d+) |
 (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-f]+) |
 (?P<word>[a-zA-Z_$.][-a-zA-Z0-9_$.]*) |
 (?P<dots>\.\.\.) |
 (?P<p>[\[\]{}()<>,=*|:])
)''', re.X)

def toks(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise IRError('tokenize: %r' % s[i:i+60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out

# ---- types: ('i',w) ('ptr',) ('fp',w,name) ('arr',n,t) ('st',name|None,[t]) ('void',) ('fn',)
PTR = ('ptr',)

class Module:
    def __init__(self, name):
        self.name = name
        self.structs = {}
        self.globals = {}
        self.mutable = set()
        self.funcs = {}
        self.decls = set()
        self.lines = {}     # metadata id -> source line

    def size(self, t):
        k = t[0]
        if k == 'i':
            return max(1, (t[1] + 7) // 8)
        if k == 'ptr':
            return 8
        if k == 'fp':
            return {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2}[t[1]]
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'st':
            offs, sz, al = self.layout(t)
            return sz
        raise IRError('size of %r' % (t,))

    def align(self, t):
        k = t[0]
        if k == 'arr':
            return self.align(t[2])
        if k == 'st':
            return self.layout(t)[2]
        return self.size(t)

    def layout(self, t):
        name, fields, packed = t[1], t[2], t[3]
        if name is not None:
            fields, packed = self.structs[name]
        off = 0
        al = 1
        offs = []
        for f in fields:
            a = 1 if packed else self.align(f)
            al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(f)
        off = (off + al - 1) // al * al
        return offs, off, al

    def fields(self, t):
        if t[1] is not None:
            return self.structs[t[1]][0]
        return t[2]

class Instr:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'line', 'flags')
    def __init__(self, op, res=None, ty=None, args=(), x=None, line=0, flags=()):
        self.op = op; self.res = res; self.ty = ty; self.args = args; self.x = x
        self.line = line; self.flags = flags
    def __repr__(self):
        return '%s=%s %r %r %r' % (self.res, self.op, self.ty, self.args, self.x)

class Block:
    def __init__(self, name):
        self.name = name
        self.phis = []
        self.ins = []
        self.succ = []

class Func:
    def __init__(self, name, ret, params, vararg, module):
        self.name = name; self.ret = ret; self.params = params; self.vararg = vararg
        self.module = module
        self.blocks = {}
        self.order = []
        self.loops = {}

class P:
    """cursor over tokens"""
    def __init__(self, tk, mod):
        self.t = tk; self.i = 0; self.m = mod
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)
    def next(self):
        r = self.t[self.i]; self.i += 1
        return r
    def acc(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False
    def exp(self, v):
        if not self.acc(v):
            raise IRError('expected %r at %r' % (v, self.t[self.i:self.i+6]))

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'ptr':
                t = PTR
            elif re.match(r'i\d+$', v):
                t = ('i', int(v[1:]))
            elif v in ('float', 'double', 'x86_fp80', 'half'):
                t = ('fp', v)
            elif v == 'void':
                t = ('void',)
            elif v in ('label', 'metadata', 'token'):
                t = (v,)
            else:
                raise IRError('type %r' % v)
        elif k == 'lid':
            t = ('st', v, None, False)
        elif v == '[':
            n = int(self.next()[1]); self.exp('x')
            e = self.type(); self.exp(']')
            t = ('arr', n, e)
        elif v == '{':
            fs = []
            while not self.acc('}'):
                fs.append(self.type()); self.acc(',')
            t = ('st', None, fs, False)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                fs = []
                while not self.acc('}'):
                    fs.append(self.type()); self.acc(',')
                self.exp('>')
                t = ('st', None, fs, True)
            else:
                raise IRError('vector type')
        else:
            raise IRError('type %r' % v)
        # function type in calls:  ret (args...)
        if self.peek()[1] == '(' and True:
            # only called where a function type may appear; caller checks
            pass
        return t

    def fnsig(self):
        """parenthesised param types for varargs call"""
        self.exp('(')
        d = 1
        while d:
            v = self.next()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    def operand(self, t):
        k, v = self.next()
        if k == 'lid':
            return ('v', v)
        if k == 'gid':
            return ('g', v[1:].strip('"'))
        if k == 'num':
            if t[0] == 'fp':
                return ('f', v)
            return ('c', int(v, 0))
        if k == 'str':
            return ('s', cstr(v))
        if v == 'null':
            return ('c', 0)
        if v == 'true':
            return ('c', 1)
        if v == 'false':
            return ('c', 0)
        if v in ('undef', 'poison'):
            return ('u',)
        if v == 'zeroinitializer':
            return ('z',)
        if v == 'getelementptr':
            self.acc('inbounds')
            self.exp('(')
            bt = self.type(); self.exp(',')
            args = []
            while True:
                ty = self.type(); args.append((ty, self.operand(ty)))
                if not self.acc(','):
                    break
            self.exp(')')
            return ('gep', bt, args)
        if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'sext', 'zext'):
            self.exp('(')
            ty = self.type(); o = self.operand(ty)
            self.exp('to'); ty2 = self.type(); self.exp(')')
            return ('cast', v, ty, o, ty2)
        if v in ('sub', 'add', 'mul', 'udiv', 'sdiv'):
            while self.peek()[1] in ('nuw', 'nsw', 'exact'):
                self.next()
            self.exp('(')
            ty = self.type(); a = self.operand(ty); self.exp(',')
            ty = self.type(); b = self.operand(ty); self.exp(')')
            return ('bin', v, ty, a, b)
        if v == '[' or v == '{':
            close = ']' if v == '[' else '}'
            els = []
            while not self.acc(close):
                ty = self.type(); els.append((ty, self.operand(ty))); self.acc(',')
            return ('agg', els)
        if k == 'md':
            return ('md', v)
        raise IRError('operand %r %r' % (k, v))

def cstr(tok):
    s = tok[tok.index('"') + 1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out.extend(s[i].encode('utf-8')); i += 1
    return bytes(out)

PATTR = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'signext', 'zeroext', 'returned',
         'writeonly', 'immarg', 'nofree', 'readnone', 'noreturn', 'inreg', 'allocptr', 'allocalign', 'writable',
         'dead_on_unwind', 'captures', 'swiftself'}
PATTRP = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'memory', 'range', 'initializes',
          'captures', 'elementtype'}

def skip_pattrs(p):
    byval = None
    while True:
        k, v = p.peek()
        if v in PATTR:
            p.next()
        elif v in PATTRP:
            p.next()
            if v == 'byval' or v == 'sret':
                byval = v
            if p.peek()[1] == '(':
                d = 0
                while True:
                    x = p.next()[1]
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
            elif v == 'align':
                p.next()
        else:
            return byval

CASTS = {'sext', 'zext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
         'fpext', 'fptrunc', 'addrspacecast'}
BINS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
        'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}

def parse_instr(line, mod):
    dbg = re.search(r', !dbg !(\d+)', line)
    lineno = mod.lines.get(int(dbg.group(1)), 0) if dbg else 0
    line = re.sub(r',? ![a-zA-Z_.]+ !\d+', '', line)
    p = P(toks(line), mod)
    res = None
    if p.peek()[0] == 'lid' and p.peek(1)[1] == '=':
        res = p.next()[1]; p.next()
    k, op = p.next()
    I = lambda *a, **kw: Instr(*a, line=lineno, **kw)
    if op in ('tail', 'musttail', 'notail'):
        k, op = p.next()
    if op == 'call':
        while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'ccc', 'fastcc'):
            p.next()
        skip_pattrs(p)
        rt = p.type()
        if p.peek()[1] == '(':
            p.fnsig()
        ck, cv = p.peek()
        if cv == 'asm':
            raise IRError('inline asm')
        callee = p.operand(PTR)
        p.exp('(')
        args = []
        while not p.acc(')'):
            ty = p.type()
            if ty == ('metadata',):
                d = 0
                while True:
                    pk = p.peek()[1]
                    if d == 0 and pk in (',', ')'):
                        break
                    if pk == '(':
                        d += 1
                    elif pk == ')':
                        d -= 1
                    p.next()
                args.append((ty, None))
            else:
                skip_pattrs(p)
                args.append((ty, p.operand(ty)))
            p.acc(',')
        return I('call', res, rt, args, callee)
    if op == 'alloca':
        p.acc('inalloca')
        ty = p.type()
        n = ('c', 1)
        if p.acc(','):
            if p.peek()[1] != 'align':
                ity = p.type(); n = p.operand(ity)
        return I('alloca', res, ty, n)
    if op == 'load':
        p.acc('atomic'); p.acc('volatile')
        ty = p.type(); p.exp(','); pt = p.type(); a = p.operand(pt)
        return I('load', res, ty, (a,))
    if op == 'store':
        p.acc('atomic'); p.acc('volatile')
        ty = p.type(); v = p.operand(ty); p.exp(','); pt = p.type(); a = p.operand(pt)
        return I('store', None, ty, (v, a))
    if op == 'getelementptr':
        p.acc('inbounds')
        bt = p.type(); p.exp(',')
        args = []
        while True:
            ty = p.type(); args.append((ty, p.operand(ty)))
            if not p.acc(','):
                break
        return I('gep', res, bt, args)
    if op == 'icmp' or op == 'fcmp':
        pred = p.next()[1]
        ty = p.type(); a = p.operand(ty); p.exp(','); b = p.operand(ty)
        return I(op, res, ty, (a, b), pred)
    if op in BINS:
        fl = []
        while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint', 'fast'):
            fl.append(p.next()[1])
        ty = p.type(); a = p.operand(ty); p.exp(','); b = p.operand(ty)
        return I('bin', res, ty, (a, b), op, flags=tuple(fl))
    if op in CASTS:
        while p.peek()[1] in ('nneg', 'nuw', 'nsw'):
            p.next()
        ty = p.type(); a = p.operand(ty); p.exp('to'); t2 = p.type()
        return I('cast', res, t2, (a,), (op, ty))
    if op == 'br':
        if p.peek()[1] == 'label':
            p.next(); l = p.next()[1]
            return I('br', None, None, (), [l])
        ty = p.type(); c = p.operand(ty); p.exp(','); p.exp('label'); a = p.next()[1]
        p.exp(','); p.exp('label'); b = p.next()[1]
        return I('br', None, ty, (c,), [a, b])
    if op == 'ret':
        ty = p.type()
        if ty == ('void',):
            return I('ret', None, ty, ())
        return I('ret', None, ty, (p.operand(ty),))
    if op == 'phi':
        while p.peek()[1] in ('fast',):
            p.next()
        ty = p.type()
        inc = []
        while True:
            p.exp('['); v = p.operand(ty); p.exp(','); b = p.next()[1]; p.exp(']')
            inc.append((b, v))
            if not p.acc(','):
                break
        return I('phi', res, ty, inc)
    if op == 'select':
        ct = p.type(); c = p.operand(ct); p.exp(',')
        ty = p.type(); a = p.operand(ty); p.exp(','); p.type(); b = p.operand(ty)
        return I('select', res, ty, (c, a, b))
    if op == 'switch':
        ty = p.type(); v = p.operand(ty); p.exp(','); p.exp('label'); d = p.next()[1]
        p.exp('[')
        cases = []
        while not p.acc(']'):
            p.type(); c = p.operand(ty); p.exp(','); p.exp('label'); cases.append((c[1], p.next()[1]))
        return I('switch', None, ty, (v,), (d, cases))
    if op == 'unreachable':
        return I('unreachable')
    if op == 'atomicrmw':
        p.acc('volatile')
        kind = p.next()[1]
        pt = p.type(); a = p.operand(pt); p.exp(','); ty = p.type(); v = p.operand(ty)
        return I('atomicrmw', res, ty, (a, v), kind)
    if op == 'fneg' or op == 'freeze':
        ty = p.type(); a = p.operand(ty)
        return I(op, res, ty, (a,))
    if op == 'extractvalue' or op == 'insertvalue':
        raise IRError(op)
    raise IRError('instr %r' % op)

def parse(text, name):
    m = Module(name)
    for mm in re.finditer(r'^!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', text, re.M):
        m.lines[int(mm.group(1))] = int(mm.group(2))
    lines = text.split('\n')
    i = 0
    n = len(lines)
    # struct types first
    for l in lines:
        mm = re.match(r'(%\S+) = type (.*)$', l)
        if mm:
            body = mm.group(2)
            if body.strip() == 'opaque':
                m.structs[mm.group(1)] = ([], False)
                continue
            p = P(toks(body), m)
            t = p.type()
            m.structs[mm.group(1)] = (t[2], t[3])
    while i < n:
        l = lines[i]
        if l.startswith('@'):
            mm = re.match(r'@("[^"]*"|[-\w$.]+) = (.*)$', l)
            nm, rest = mm.group(1).strip('"'), mm.group(2)
            rest = re.sub(r', !dbg !\d+', '', rest)
            ext = bool(re.match(r'(external|extern_weak)\b', rest))
            rest2 = re.sub(r'^(?:(?:private|internal|external|dso_local|unnamed_addr|local_unnamed_addr|common|linkonce_odr|weak|extern_weak|hidden|thread_local\([a-z]+\)|thread_local)\s+)*', '', rest)
            const = rest2.startswith('constant')
            rest2 = re.sub(r'^(global|constant)\s+', '', rest2)
            p = P(toks(rest2), m)
            ty = p.type()
            init = None
            if not ext and p.i < len(p.t) and p.peek()[1] != ',':
                init = p.operand(ty)
            m.globals[nm] = (ty, init, const)
            # assigned anywhere (or visible to other units): the value at a function's entry is not the initial one
            if not const and (not re.match(r'(private|internal)', rest) or re.search(r'(store [^\n]*, ptr|atomicrmw[^\n]* ptr|cmpxchg[^\n]* ptr|call[^\n]*) @%s\b' % re.escape(nm), text)):
                m.mutable.add(nm)
        elif l.startswith('declare'):
            mm = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
            m.decls.add(mm.group(1).strip('"'))
        elif l.startswith('define'):
            hdr = l
            p = P(toks(re.sub(r'!dbg !\d+', '', hdr[:hdr.rindex('{')])), m)
            p.next()
            while p.peek()[1] in ('dso_local', 'internal', 'hidden', 'linkonce_odr', 'weak', 'noundef', 'zeroext', 'signext', 'noalias', 'nonnull') or p.peek()[1] in PATTR:
                p.next()
            skip_pattrs(p)
            rt = p.type()
            nm = p.next()[1][1:].strip('"')
            p.exp('(')
            params = []
            vararg = False
            while not p.acc(')'):
                if p.acc('...'):
                    vararg = True
                    continue
                ty = p.type()
                bv = skip_pattrs(p)
                params.append((ty, p.next()[1], bv))
                p.acc(',')
            f = Func(nm, rt, params, vararg, m)
            m.funcs[nm] = f
            i += 1
            cur = None
            while lines[i] != '}':
                s = lines[i]
                mm = re.match(r'^("[^"]*"|[-\w$.]+):', s)
                if mm:
                    cur = Block('%' + mm.group(1))
                    f.blocks[cur.name] = cur
                    f.order.append(cur.name)
                elif s.strip() and not s.strip().startswith(';') and not s.lstrip().startswith('#dbg'):
                    st = s.strip()
                    if '@llvm.dbg.' in st:
                        i += 1
                        continue
                    if st.startswith('switch') or re.match(r'%\S+ = switch', st):
                        while ']' not in lines[i]:
                            i += 1
                            st += ' ' + lines[i].strip()
                    st = re.sub(r'\s;.*$', '', st) if '"' not in st else st
                    if cur is None:
                        cur = Block('%0')
                        f.blocks[cur.name] = cur; f.order.append(cur.name)
                    try:
                        ins = parse_instr(st, m)
                    except IRError as e:
                        ins = Instr('unsupported', None, None, (), '%s: %s' % (e, st))
                    if ins.op == 'phi':
                        cur.phis.append(ins)
                    else:
                        cur.ins.append(ins)
                i += 1
            analyse(f)
        i += 1
    return m

def analyse(f):
    for b in f.blocks.values():
        t = b.ins[-1] if b.ins else None
        if t is None:
            continue
        if t.op == 'br':
            b.succ = list(t.x)
        elif t.op == 'switch':
            b.succ = [t.x[0]] + [c[1] for c in t.x[1]]
    # dominators (simple iterative), natural loops
    order = []
    seen = set()
    def dfs(b0):
        st = [(b0, iter(f.blocks[b0].succ))]
        seen.add(b0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(f.blocks[s].succ)))
                    break
            else:
                order.append(b)
                st.pop()
    entry = f.order[0]
    dfs(entry)
    rpo = order[::-1]
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in f.blocks[b].succ:
            preds[s].append(b)
    dom = {b: set(rpo) for b in rpo}
    dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            nd = set.intersection(*[dom[p] for p in preds[b]]) | {b}
            if nd != dom[b]:
                dom[b] = nd
                ch = True
    loops = {}
    for b in rpo:
        for s in f.blocks[b].succ:
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
    f.loops = loops
    f.preds = preds

def compile_ir(src, extra=(), cache=None):
    """clang + opt(mem2reg) on the real source; returns the IR text"""
    args = [tool('clang'), '-std=gnu11', '-O0', '-g', '-fno-discard-value-names', '-Xclang', '-disable-O0-optnone',
            '-emit-llvm', '-S', '-w', src, '-o', '-'] + list(extra)
    r = subprocess.run(args, capture_output=True, text=True)
    if r.returncode != 0:
        raise IRError('clang failed on %s:\n%s' % (src, r.stderr[-2000:]))
    r2 = subprocess.run([tool('opt'), '-S', '-passes=mem2reg,loop-simplify', '-', '-o', '-'],
                        input=r.stdout, capture_output=True, text=True)
    if r2.returncode != 0:
        raise IRError('opt failed: %s' % r2.stderr[-2000:])
    return r2.stdout

class Program:
    def __init__(self, mods):
        self.mods = mods
        self.ext = {}
        for m in mods:
            for n, f in m.funcs.items():
                self.ext.setdefault(n, f)
    def resolve(self, mod, name):
        if name in mod.funcs:
            return mod.funcs[name]
        return self.ext.get(name)
    def find(self, name):
        return self.ext.get(name)
