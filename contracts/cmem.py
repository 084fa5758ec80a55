"""Contracts of the C library functions used by the dictionary code: memory,
NUL-terminated strings, stdio (trusted).  A file is a function from offsets to
bytes with a length; arrays are sequences with bounds."""
from contracts.spec import *
import models
Z, B_ = z3.IntSort(), z3.BoolSort()
def zi(x): return z3.IntVal(x) if isinstance(x, int) else x
def arr(I, p, what):
    """(location, contents, index) of a pointer into an array"""
    p = I.deref_lv(p)
    if not isinstance(p, IterV): raise Unsupported('%s of %s' % (what, type(p).__name__))
    if p.nul is not False: I.ob('null-deref:%s:%s' % (I.where(), what), pnot(p.nul), 'safety')
    c = I.read(p.c)
    if isinstance(c, FreedV): I.ob('use-after-free:%s:%s' % (I.where(), what), False, 'safety'); raise interp.PathEnd()
    if not isinstance(c, SeqV): raise Unsupported('%s of %s' % (what, type(c).__name__))
    return p, c, zi(p.i)
def hints(I, p): return I.ghost['nuls'](I, p) if 'nuls' in I.ghost else []
def strlen(I, p, what='strlen'):
    """length of the string at p; memory is shown to hold a NUL from p on"""
    p, c, i = arr(I, p, what)
    hs = [zi(h) for h in hints(I, p)]
    I.ob('%s: string is terminated inside its array (%s)' % (I.where(), what), z3.Or([z3.And(i >= 0, i <= h, h < zi(c.n), zi(c.at(h)) == 0) for h in hs] or [z3.BoolVal(False)]), 'safety')
    L = z3.Int('len!%d' % I.newid())
    I.fact(z3.And(L >= 0, i + L < zi(c.n), zi(c.at(i + L)) == 0))
    for h in hs: I.fact(z3.Implies(z3.And(i <= h, h < zi(c.n), zi(c.at(h)) == 0), L <= h - i))
    for k in I.ghost.get('track', []): I.fact(z3.Implies(z3.And(k >= i, k < i + L), zi(c.at(k)) != 0))
    I.ghost['lens'] = I.ghost.get('lens', []) + [(p, L)]
    return L
def put(I, p, c, lo, n, f):
    """array elements lo..lo+n become f(0..n)"""
    at = c.at
    I.write(p.c, SeqV(c.et, c.n, lambda j: ite(z3.And(zi(j) >= lo, zi(j) < lo + n), f(zi(j) - lo), at(j)), kind=c.kind))
def h_strlen(I, this, a, node): return strlen(I, a[0])
def h_strcpy(I, this, a, node):
    L = strlen(I, a[1], 'strcpy source')
    q, s, k = arr(I, a[1], 'strcpy')
    p, c, i = arr(I, a[0], 'strcpy')
    I.ob('%s: strcpy stays inside the destination' % I.where(), z3.And(i >= 0, i + L + 1 <= zi(c.n)), 'safety')
    put(I, p, c, i, L + 1, lambda j: s.at(k + j))
    return p
def h_strncpy(I, this, a, node):
    m = zi(I.deref_lv(a[2]))
    L = strlen(I, a[1], 'strncpy source')
    q, s, k = arr(I, a[1], 'strncpy')
    p, c, i = arr(I, a[0], 'strncpy')
    I.ob('%s: strncpy stays inside the destination' % I.where(), z3.And(i >= 0, m >= 0, i + m <= zi(c.n)), 'safety')
    put(I, p, c, i, m, lambda j: ite(j < L, s.at(k + j), 0))
    I.ghost['copied'] = (p, z3.If(L < m, L, m))
    return p
def h_memcpy(I, this, a, node):
    m = zi(I.deref_lv(a[2]))
    q, s, k = arr(I, a[1], 'memcpy')
    p, c, i = arr(I, a[0], 'memcpy')
    I.ob('%s: memcpy stays inside its arrays' % I.where(), z3.And(m >= 0, i >= 0, k >= 0, i + m <= zi(c.n), k + m <= zi(s.n)), 'safety')
    put(I, p, c, i, m, lambda j: s.at(k + j))
    return p
def h_strchr(I, this, a, node):
    L = strlen(I, a[0], 'strchr')
    p, c, i = arr(I, a[0], 'strchr')
    ch = zi(I.deref_lv(a[1]))
    k, nul = z3.Int('chr!%d' % I.newid()), z3.Bool('nochr!%d' % I.newid())
    I.fact(z3.Implies(z3.Not(nul), z3.And(k >= i, k <= i + L, zi(c.at(k)) == ch)))
    for t in I.ghost.get('track', []):
        I.fact(z3.Implies(z3.And(t >= i, t < z3.If(nul, i + L + 1, k)), zi(c.at(t)) != ch))
    return IterV(p.c, k, nul=nul)
def h_malloc(I, this, a, node): return RawV(I.deref_lv(a[0]), z3.Bool('nomem!%d' % I.newid()))
def h_realloc(I, this, a, node):
    n = I.deref_lv(a[1])
    p, c, i = arr(I, a[0], 'realloc')
    nul = z3.Bool('nomem!%d' % I.newid())
    I.ob('%s: realloc of a whole block' % I.where(), i == 0, 'safety')
    I.ob('%s: realloc size' % I.where(), zi(n) > 0, 'safety')
    r = RawV(n, nul, c)
    return r
def h_free(I, this, a, node):
    v = I.deref_lv(a[0])
    if isinstance(v, RawV): return
    lv = v.lv if isinstance(v, PtrV) else v.c
    if lv is None: return
    c = I.store.get(lv.loc) if not lv.path else I.read(lv)
    if isinstance(c, FreedV): I.ob('%s: released once' % I.where(), pnot(False) if False else v.nul, 'safety')
    elif isinstance(v, IterV): I.ob('%s: a whole block is released' % I.where(), por([v.nul, eqi(v.i, 0)]), 'safety')
    I.write(lv, FreedV())

# ------------------------------------------------------------------ stdio
class FileV:
    """an open file: contents(offset), length, position"""
    def __init__(self, byte, n, pos): self.byte, self.n, self.pos = byte, n, pos
    def at(self, pos): return FileV(self.byte, self.n, pos)
    def havoc_(self, I, name):
        p = z3.Int(name + '.pos'); I.fact(p >= 0)
        return FileV(self.byte, self.n, p)
def afile(I, p):
    p = I.deref_lv(p)
    if not isinstance(p, PtrV) or p.lv is None: raise Unsupported('stream %s' % type(p).__name__)
    I.ob('%s: the stream is open' % I.where(), pnot(p.nul), 'safety')
    f = I.read(p.lv)
    if isinstance(f, FreedV): I.ob('%s: the stream is open' % I.where(), False, 'safety'); raise interp.PathEnd()
    return p.lv, f
def signed(I, b): return z3.If(b >= 128, b - 256, b)
def h_fread(I, this, a, node):
    sz, cnt = I.deref_lv(a[1]), I.deref_lv(a[2])
    lv, f = afile(I, a[3])
    p, c, i = arr(I, a[0], 'fread')
    if not (isinstance(cnt, int) and cnt == 1) and not (isinstance(sz, int) and sz == 1): raise Unsupported('fread of %s items' % cnt)
    m = zi(sz) if isinstance(cnt, int) and cnt == 1 else zi(cnt)
    I.ob('%s: fread stays inside its buffer' % I.where(), z3.And(m >= 0, i >= 0, i + m <= zi(c.n)), 'safety')
    left = zi(f.n) - zi(f.pos)
    got = z3.If(left >= m, m, left)
    base = zi(f.pos)
    conv = (lambda b: signed(I, b)) if c.et in ('char', 'signed char') else (lambda b: b)
    put(I, p, c, i, got, lambda j: conv(f.byte(base + j)))
    I.write(lv, f.at(base + got))
    return z3.If(z3.And(m > 0, left >= m), z3.IntVal(1), z3.IntVal(0)) if isinstance(cnt, int) and cnt == 1 else got
def h_fclose(I, this, a, node):
    lv, f = afile(I, a[0])
    I.write(lv, FreedV()); return 0
def ignore(I, this, a, node): return 0
HOOKS = {'strlen': h_strlen, 'strcpy': h_strcpy, 'strncpy': h_strncpy, 'memcpy': h_memcpy, 'strchr': h_strchr, 'malloc': h_malloc, 'realloc': h_realloc, 'free': h_free,
         'fread': h_fread, 'fclose': h_fclose, 'fprintf': ignore, 'printf': ignore}
