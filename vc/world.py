"""Program under verification, data layout, and builders of arbitrary well-formed states."""
import os, subprocess, tempfile, shutil, sys
from .term import *
from .exec import *
from . import ir
from .models import MODELS

REPO = os.environ.get('VERIF_REPO', '/repo')
MPI_INC = ['-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
SRC = {
    'bigfile': ('src/bigfile.c', []),
    'record': ('src/bigfile-record.c', []),
    'mpi': ('src/bigfile-mpi.c', MPI_INC),
    'mpiu': ('src/mp-mpiu.c', MPI_INC),
    'glue_mpi': (os.path.join(os.path.dirname(os.path.abspath(__file__)), 'glue_mpi.c'), ['-I' + os.path.join(REPO, 'src')] + MPI_INC),
    'glue': (os.path.join(os.path.dirname(os.path.abspath(__file__)), 'glue.c'), ['-I' + os.path.join(REPO, 'src')]),
}
_prog = {}
def program(names=('bigfile', 'record', 'mpi', 'mpiu')):
    key = tuple(names)
    if key not in _prog:
        mods = []
        for n in names:
            p, extra = SRC[n]
            path = os.path.join(REPO, p)
            mods.append(ir.parse(ir.compile_ir(path, extra), p))
        _prog[key] = ir.Program(mods)
    return _prog[key]

FIELDS = {
    'BigFile': ['basename'],
    'BigAttr': ['nmemb', 'dtype', 'name', 'data'],
    'BigAttrSet': ['dirty', 'attrbuf', 'bufused', 'bufsize', 'attrlist', 'listused', 'listsize'],
    'BigBlock': ['dtype', 'nmemb', 'basename', 'size', 'fsize', 'foffset', 'fchecksum', 'Nfile', 'attrset', 'dirty'],
    'BigBlockPtr': ['fileid', 'roffset', 'aoffset'],
    'BigArray': ['ndim', 'dtype', 'dims', 'strides', 'size', 'data'],
    'BigArrayIter': ['pos', 'array', 'contiguous', 'dataptr'],
    'BigRecordField': ['name', 'dtype', 'nmemb', 'offset', 'elsize'],
    'BigRecordType': ['fields', 'nfield', 'itemsize'],
}
SEG = ['Ngroup', 'Nsegments', 'GroupID', 'ThisSegment', 'totalsize', 'segment_start', 'segment_end', 'is_group_leader',
       'group_leader_rank', 'segment_leader_rank', 'Group', 'Leaders', 'Segment']
_lay = {}
def layout(mpi=False):
    """field offsets and sizes as the compiler lays them out in the current tree"""
    if mpi in _lay:
        return _lay[mpi]
    d = tempfile.mkdtemp(prefix='vlay')
    try:
        src = ['#define _GNU_SOURCE']
        if not mpi:
            src += ['#include "bigfile.c"']
            fields = FIELDS
        else:
            src += ['#include <mpi.h>', '#include <stddef.h>', '#include <stdio.h>', '#include "mp-mpiu.h"']
            fields = {'MPIU_Segmenter': SEG}
        src.append('int main(){')
        for s, fs in fields.items():
            src.append('printf("%s . 0 %%zu\\n", sizeof(%s));' % (s, s))
            for f in fs:
                src.append('printf("%s %s %%zu %%zu\\n", offsetof(%s, %s), sizeof(((%s*)0)->%s));' % (s, f, s, f, s, f))
        src.append('return 0;}')
        p = os.path.join(d, 'p.c')
        open(p, 'w').write('\n'.join(src))
        exe = os.path.join(d, 'p')
        subprocess.run(['gcc', '-w', '-O0', '-I' + os.path.join(REPO, 'src')] + (MPI_INC if mpi else []) + [p, '-o', exe], check=True)
        out = subprocess.run([exe], check=True, capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(d)
    L = {}
    for l in out.splitlines():
        s, f, o, n = l.split()
        L[(s, f)] = (int(o), int(n))
    _lay[mpi] = L
    return L

def fo(s, f):
    return layout(s == 'MPIU_Segmenter')[(s, f)][0]
def fs(s, f):
    return layout(s == 'MPIU_Segmenter')[(s, f)][1]
def sizeof(s):
    return layout(s == 'MPIU_Segmenter')[(s, '.')][1]
def fld(ptr, s, f):
    return ptr + fo(s, f)
def get(S, ptr, s, f):
    return S.rd(ptr + fo(s, f), fs(s, f))
def put(S, ptr, s, f, v):
    """pre-state initialisation"""
    o, off = S.resolve(ptr + fo(s, f))
    S.push(o, ('W', off, C(fs(s, f)), P(v)))
def puts(S, ptr, b, n=None):
    """pre-state bytes"""
    o, off = S.resolve(ptr)
    b = b + b'\0' * ((n or len(b)) - len(b))
    for j, c in enumerate(b):
        S.push(o, ('W', off + j, C(1), C(wrap_const(c, 8))))

_objs = {}
def obj(S, name, size, kind='heap', **kw):
    """named pre-state object"""
    o = Obj(name, size, kind, **kw)
    S.add(o)
    return o

def table(fn, size, lo=None, hi=None, scale=None):
    """reader of an array of `size`-byte entries: entry k is the uninterpreted fn(k)"""
    def rd(S, off, n):
        if n != size:
            if n < size:
                k = fdivp(off, C(size))
                r = off - k * size
                if r.is_const():
                    return byte_of(fn(k), r.cval(), size) if n == 1 else from_bytes(S, [byte_of(fn(k), r.cval() + j, size) for j in range(n)])
            raise Unsupported('table access of %d bytes' % n)
        k = fdivp(off, C(size))
        return fn(k)
    return rd

MAXROWS = 1 << 48      # assumed bound on row counts (see DESIGN.md: arithmetic range)
MAXFILE = (1 << 31) - 3

class Block:
    """an arbitrary well-formed BigBlock"""
    def __init__(self, S, tag='bb', dtype=b'<f8', meta=False, nmemb=None, Nfile=None, attrset=True, like=None):
        self.tag = tag
        self.o = obj(S, tag, sizeof('BigBlock'))
        self.p = self.o.base
        p = self.p
        self.meta = meta
        self.dtype = dtype
        puts(S, fld(p, 'BigBlock', 'dtype'), dtype, 8)
        var_ = (lambda n, lo=None, hi=None: app(n, lo=lo, hi=hi)) if like else var
        self.nid = var_('name_' + (like or tag))
        self.nameo = obj(S, tag + '.basename', app('strlen', self.nid, lo=0, hi=1 << 30) + 1, cstr=lambda S, off: (('id', self.nid),) if off == 0 else None)
        put(S, p, 'BigBlock', 'basename', self.nameo.base)
        if meta:
            self.Nfile = ZERO
            self.size = ZERO
            self.nmemb = P(0) if nmemb is None else P(nmemb)
            for f in ('fsize', 'foffset', 'fchecksum'):
                put(S, p, 'BigBlock', f, 0)
        else:
            self.Nfile = var_('Nfile_' + (like or tag), 0, MAXFILE) if Nfile is None else P(Nfile)
            self.nmemb = var_('nmemb_' + (like or tag), 0, 1 << 20) if nmemb is None else P(nmemb)
            self.fz = lambda k: app('fsize_' + (like or tag), k, lo=0, hi=MAXROWS)
            self.ck = lambda k: app('fck_' + tag, k, lo=-(1 << 31), hi=(1 << 31) - 1)
            self.body = self.fz(Poly.atom(PLACE))
            self.fof = lambda k: sum_(self.body, k)
            self.size = self.fof(self.Nfile)
            S.assume(ge(self.size, 0))
            S.assume(le(self.size, MAXROWS))
            self.fsize = obj(S, tag + '.fsize', (self.Nfile + 1) * 8, reader=table(self.fz, 8))
            self.foffset = obj(S, tag + '.foffset', (self.Nfile + 1) * 8, reader=table(self.fof, 8))
            self.fchecksum = obj(S, tag + '.fchecksum', (self.Nfile + 1) * 4, reader=table(self.ck, 4))
            put(S, p, 'BigBlock', 'fsize', self.fsize.base)
            put(S, p, 'BigBlock', 'foffset', self.foffset.base)
            put(S, p, 'BigBlock', 'fchecksum', self.fchecksum.base)
        put(S, p, 'BigBlock', 'Nfile', self.Nfile)
        put(S, p, 'BigBlock', 'nmemb', self.nmemb)
        put(S, p, 'BigBlock', 'size', self.size)
        self.dirty = var('dirty_' + tag, 0, 1)
        put(S, p, 'BigBlock', 'dirty', self.dirty)
        if attrset:
            self.ao = obj(S, tag + '.attrset', sizeof('BigAttrSet'))
            put(S, p, 'BigBlock', 'attrset', self.ao.base)
        self.o.info['block'] = self
