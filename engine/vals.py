"""Symbolic values of the verifier.

int/bool/char/enum -> python int/bool or z3 Int/Bool term (mathematical ints)
std::string        -> python str (latin-1 view of the bytes) or z3 String term
class objects      -> StructV (immutable; updates rebuild)
list/vector/u16string/multimap -> SeqV (length + element function)
"""
import z3

class Unsupported(Exception):
    """a construct outside the verifier's fragment"""

def isz(x): return isinstance(x, z3.ExprRef)

class StructV:
    __slots__ = ('t', 'f')
    def __init__(self, t, f): self.t = t; self.f = f
    def get(self, n):
        if n not in self.f: raise Unsupported('no field %s in %s' % (n, self.t))
        return self.f[n]
    def set(self, n, v):
        d = dict(self.f); d[n] = v
        return StructV(self.t, d)
    def __repr__(self): return '%s%r' % (self.t, self.f)

class RefV:
    """reference-typed member"""
    __slots__ = ('lv',)
    def __init__(self, lv): self.lv = lv

_seq_id = [0]
class SeqV:
    """et: element type; n: length; at: index -> value; conc: python list when
    every element is known; key: identity (base, start) used for comparing
    strings as a whole; kind: list|vector|u16|multimap"""
    __slots__ = ('et', 'n', 'atf', 'conc', 'key', 'kind')
    def __init__(self, et, n, atf=None, conc=None, key=None, kind='list'):
        self.et, self.n, self.atf, self.conc, self.kind = et, n, atf, conc, kind
        self.key = key
    def at(self, i):
        if self.conc is not None:
            if isinstance(i, int):
                if 0 <= i < len(self.conc): return self.conc[i]
                raise IndexError(i)
            if not self.conc: raise IndexError(i)
            r = self.conc[-1]
            for k in range(len(self.conc) - 2, -1, -1):
                r = ite(i == k, self.conc[k], r)
            return r
        return self.atf(i)
    def clone(self, **kw):
        d = dict(et=self.et, n=self.n, atf=self.atf, conc=self.conc, key=None, kind=self.kind)
        d.update(kw); return SeqV(**d)
    def setat(self, i, v):
        if self.conc is not None and isinstance(i, int):
            c = list(self.conc); c[i] = v
            return self.clone(conc=c)
        if self.conc is not None:
            return self.clone(conc=[ite(i == k, v, x) for k, x in enumerate(self.conc)])
        at = self.at
        return self.clone(conc=None, atf=lambda j: lite(eqi(j, i), lambda: v, lambda: at(j)))
    def insert(self, k, v):
        if self.conc is not None and isinstance(k, int):
            c = list(self.conc); c.insert(k, v)
            return self.clone(conc=c, n=len(c))
        at = self.at
        n0 = self.n
        def f(j):
            return lite3(lt(j, k), lambda: at(j), eqi(j, k), lambda: v, lambda: at(sub(j, 1)))
        return self.clone(conc=None, n=add(self.n, 1), atf=f)
    def push(self, v): return self.insert(self.n, v)
    def erase(self, a, b):
        if self.conc is not None and isinstance(a, int) and isinstance(b, int):
            c = list(self.conc); del c[a:b]
            return self.clone(conc=c, n=len(c))
        at = self.at; d = sub(b, a)
        return self.clone(conc=None, n=sub(self.n, d),
                          atf=lambda j: lite(lt(j, a), lambda: at(j), lambda: at(add(j, d))))
    def slice(self, a, n):
        if self.conc is not None and isinstance(a, int) and isinstance(n, int):
            c = self.conc[a:a + n]
            return self.clone(conc=c, n=len(c))
        at = self.at
        k = None
        if self.key is not None: k = (self.key[0], add(self.key[1], a))
        return self.clone(conc=None, n=n, atf=lambda j: at(add(j, a)), key=k)
    def insert_seq(self, k, o):
        if o.conc is not None:
            r = self
            for i, v in enumerate(o.conc): r = r.insert(add(k, i), v)
            return r
        at, ot, on = self.at, o.at, o.n
        return self.clone(conc=None, n=add(self.n, o.n), atf=lambda j: lite3(
            lt(j, k), lambda: at(j), lt(j, add(k, on)), lambda: ot(sub(j, k)),
            lambda: at(sub(j, on))))
    def __repr__(self):
        return 'Seq<%s>[%s]' % (self.et, self.conc if self.conc is not None else self.n)

class SetV:
    def __init__(self, items): self.items = items
    def has(self, x): return por([eqv(x, i) for i in self.items])
class MapV:
    def __init__(self, items): self.items = items     # [(k, v)]
    def has(self, x): return por([eqv(x, k) for k, _ in self.items])
    def at(self, x):
        r = None
        for k, v in reversed(self.items):
            c = eqv(x, k)
            if c is True: r = v
            elif c is False: continue
            else: r = v if r is None else ite(c, v, r)
        return r

class IterV:
    __slots__ = ('c', 'i', 'rev', 'key', 'nul')
    def __init__(self, c, i, rev=False, key=None, nul=False): self.c = c; self.i = i; self.rev = rev; self.key = key; self.nul = nul
    def at(self, i): return IterV(self.c, i, self.rev, self.key, self.nul)
    def __repr__(self): return 'It(%r,%r)' % (self.c, self.i)

class MapIterV:
    """result of unordered_map/set find(): key found or end"""
    def __init__(self, m, key, isend): self.m = m; self.key = key; self.isend = isend

class PtrV:
    """lv None = null; nul: condition under which the pointer is null"""
    __slots__ = ('lv', 'nul')
    def __init__(self, lv, nul=None):
        self.lv = lv; self.nul = (lv is None) if nul is None else nul
    def __repr__(self): return 'Ptr(%r)' % (self.lv,)

class FreedV:
    """contents of released memory"""
class RawV:
    """fresh memory of n bytes before it is given a type"""
    def __init__(self, n, nul, old=None): self.n, self.nul, self.old = n, nul, old

class CStrV:
    """char pointer into NUL-terminated constant/opaque bytes"""
    __slots__ = ('s',)
    def __init__(self, s): self.s = s

class FuncV:
    __slots__ = ('decl', 'tu', 'this', 'lam')
    def __init__(self, decl, tu, this=None, lam=None):
        self.decl = decl; self.tu = tu; self.this = this; self.lam = lam

_runs = {}
class TabVal:
    """value tabulated over a 16-bit character term, as runs (first, last, value)"""
    __slots__ = ('c', 'runs')
    def __init__(self, c, tab=None, runs=None):
        self.c = c
        if runs is None:
            e = _runs.get(id(tab))
            if e is None: e = _runs[id(tab)] = (tab, TabVal.join((i, i, x) for i, x in enumerate(tab)))
            runs = e[1]
        self.runs = runs
    @staticmethod
    def join(it):
        out = []
        for a, b, v in it:
            if out and out[-1][2] == v: out[-1] = (out[-1][0], b, v)
            else: out.append((a, b, v))
        return out
    def map(self, f): return TabVal(self.c, runs=TabVal.join((a, b, f(v)) for a, b, v in self.runs))
    def where(self, p):
        rs = []
        for a, b, v in self.runs:
            if not p(v): continue
            if rs and rs[-1][1] == a - 1: rs[-1][1] = b
            else: rs.append([a, b])
        c = self.c
        if isinstance(c, int): return any(a <= c <= b for a, b in rs)
        if len(rs) > 600: raise Unsupported('table predicate too irregular')
        return por([(c == a) if a == b else z3.And(c >= a, c <= b) if b < 65535 else c >= a for a, b in rs])
    def truth(self): return self.where(lambda v: v != 0)

class OpaqueV:
    """object without observable content (locale facets, converters, ...)"""
    __slots__ = ('t', 'd')
    def __init__(self, t, d=None): self.t = t; self.d = d or {}
    def __repr__(self): return 'Opaque(%s)' % self.t

class LV:
    __slots__ = ('loc', 'path')
    def __init__(self, loc, path=()): self.loc = loc; self.path = path
    def f(self, n): return LV(self.loc, self.path + (('f', n),))
    def e(self, i): return LV(self.loc, self.path + (('e', i),))
    def same(self, o):
        return self.loc == o.loc and len(self.path) == len(o.path) and all(
            a[0] == b[0] and (a[1] is b[1] or (type(a[1]) in (int, str) and a[1] == b[1]) or
                              (isz(a[1]) and isz(b[1]) and a[1].eq(b[1])))
            for a, b in zip(self.path, o.path))
    def __repr__(self): return 'LV%s%s' % (self.loc, ''.join('.%s' % (p[1],) for p in self.path))

# --- arithmetic helpers folding constants ---
def add(a, b):
    if isinstance(a, int) and isinstance(b, int): return int(a) + int(b)
    if isinstance(b, int) and b == 0: return a
    if isinstance(a, int) and a == 0: return b
    return z3.simplify(a + b) if (isinstance(a, int) or isinstance(b, int)) else a + b
def sub(a, b):
    if isinstance(a, int) and isinstance(b, int): return int(a) - int(b)
    if isinstance(b, int) and b == 0: return a
    return z3.simplify(a - b)
def lt(a, b):
    if isinstance(a, int) and isinstance(b, int): return a < b
    return a < b
def le(a, b): return a <= b
def eqi(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    if isz(a) and isz(b) and a.eq(b): return True
    r = z3.simplify(a == b)
    if z3.is_true(r): return True
    if z3.is_false(r): return False
    return r
def inranges(c, vals):
    if isinstance(c, int): return c in set(vals)
    rs = []
    for v in vals:
        if rs and rs[-1][1] == v - 1: rs[-1][1] = v
        else: rs.append([v, v])
    if len(rs) > 600: raise Unsupported('table predicate too irregular')
    return por([(c == a) if a == b else z3.And(c >= a, c <= b) for a, b in rs])

def zb(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    return x
def pand(l):
    o = []
    for x in l:
        if x is True: continue
        if x is False: return False
        o.append(x)
    if not o: return True
    return o[0] if len(o) == 1 else z3.And(*o)
def por(l):
    o = []
    for x in l:
        if x is False: continue
        if x is True: return True
        o.append(x)
    if not o: return False
    return o[0] if len(o) == 1 else z3.Or(*o)
def pnot(x):
    if isinstance(x, bool): return not x
    return z3.Not(x)
def pimp(a, b): return por([pnot(a), b])
def piff(a, b):
    if isinstance(a, bool): return b if a else pnot(b)
    if isinstance(b, bool): return a if b else pnot(a)
    return a == b

def zstr(s):
    if isinstance(s, str):
        return z3.StringVal(''.join(c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in s))
    return s
def unzstr(s):
    """python str of a z3 string constant"""
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)
def scat(a, b):
    if isinstance(a, str) and isinstance(b, str): return a + b
    if a == '' and isinstance(a, str): return b
    if b == '' and isinstance(b, str): return a
    return z3.Concat(zstr(a), zstr(b))

def lite(c, a, b):
    if c is True: return a()
    if c is False: return b()
    return ite(c, a(), b())
def lite3(c1, a, c2, b, d):
    return lite(c1, a, lambda: lite(c2, b, d))

def ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if isz(c):
        if z3.is_true(c): return a
        if z3.is_false(c): return b
    if a is b: return a
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and type(a) == type(b) and a == b: return a
    if isinstance(a, str) and isinstance(b, str) and a == b: return a
    if isinstance(a, StructV) and isinstance(b, StructV):
        if a.t != b.t: raise Unsupported('ite of different classes')
        return StructV(a.t, {k: ite(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, SeqV) and isinstance(b, SeqV):
        n = ite(c, a.n, b.n)
        key = None
        if a.key is not None and b.key is not None:
            key = (ite(c, a.key[0], b.key[0]), ite(c, a.key[1], b.key[1]))
        def at(j):
            if a.conc is not None and not a.conc: return b.at(j)
            if b.conc is not None and not b.conc: return a.at(j)
            return ite(c, a.at(j), b.at(j))
        if isinstance(n, int) and a.conc is not None and b.conc is not None:
            return SeqV(a.et, n, conc=[ite(c, x, y) for x, y in zip(a.conc, b.conc)], kind=a.kind)
        return SeqV(a.et, n, at, None, key, a.kind)
    if isinstance(a, IterV) and isinstance(b, IterV) and a.c.same(b.c) and (a.key is b.key or (isz(a.key) and isz(b.key) and a.key.eq(b.key))):
        return IterV(a.c, ite(c, a.i, b.i), a.rev, a.key, a.nul if a.nul is b.nul else ite(c, a.nul, b.nul))
    if isinstance(a, IterV) and isinstance(b, PtrV) and b.lv is None: return IterV(a.c, a.i, a.rev, a.key, por([pnot(c), a.nul]))
    if isinstance(b, IterV) and isinstance(a, PtrV) and a.lv is None: return IterV(b.c, b.i, b.rev, b.key, por([c, b.nul]))
    if isinstance(a, PtrV) and isinstance(b, PtrV):
        if a.lv is None and b.lv is None: return a
        if a.lv is None: return PtrV(b.lv, por([c, b.nul]))
        if b.lv is None: return PtrV(a.lv, por([pnot(c), a.nul]))
        if a.lv.same(b.lv): return PtrV(a.lv, ite(c, a.nul, b.nul))
    if isinstance(a, CStrV) and isinstance(b, CStrV): return CStrV(ite(c, a.s, b.s))
    if isinstance(a, OpaqueV) and isinstance(b, OpaqueV) and a.t == b.t and not a.d and not b.d: return a
    if hasattr(a, 'ite_'): return a.ite_(c, b)
    if isinstance(a, TabVal): a = tabz(a)
    if isinstance(b, TabVal): b = tabz(b)
    if isinstance(a, str) or isinstance(b, str): a, b = zstr(a), zstr(b)
    ab = isinstance(a, bool) or (isz(a) and z3.is_bool(a))
    bb = isinstance(b, bool) or (isz(b) and z3.is_bool(b))
    if ab != bb:
        if ab: a = toint(a)
        else: b = toint(b)
        ab = False
    if ab:
        if a is True and b is False: return c
        if a is False and b is True: return z3.Not(c)
        return z3.If(c, zb(a), zb(b))
    if isinstance(a, int): a = z3.IntVal(a)
    if isinstance(b, int): b = z3.IntVal(b)
    if isz(a) and isz(b):
        if a.sort() != b.sort(): raise Unsupported('ite sort mismatch %s %s' % (a.sort(), b.sort()))
        return z3.If(c, a, b)
    raise Unsupported('ite of %s / %s' % (type(a).__name__, type(b).__name__))

def tabz(t):
    """TabVal as an integer term, grouped by value"""
    if isinstance(t.c, int): return [v for a, b, v in t.runs if a <= t.c <= b][0]
    cnt = {}
    for a, b, v in t.runs: cnt[v] = cnt.get(v, 0) + b - a + 1
    if len(cnt) > 120: raise Unsupported('table value too irregular')
    d = max(cnt, key=lambda v: cnt[v])
    r = z3.IntVal(d)
    for x in cnt:
        if x != d: r = z3.If(t.where(lambda v: v == x), z3.IntVal(x), r)
    return r

def toint(v):
    if isinstance(v, bool): return int(v)
    if isinstance(v, TabVal): return tabz(v)
    if isz(v) and z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v

RK = z3.Function('strRank', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())
U8 = z3.Function('utf8', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.StringSort())
_conc_keys = {}
def seqkey(s):
    """(base, start) term naming a character sequence; concrete strings get
    one negative base id per distinct content"""
    if s.key is not None: return s.key
    if s.conc is not None and all(isinstance(x, int) for x in s.conc):
        t = tuple(s.conc)
        if t not in _conc_keys: _conc_keys[t] = -1 - len(_conc_keys)
        return (_conc_keys[t], 0)
    raise Unsupported('comparison of anonymous character sequences')

def eqv(a, b):
    """structural equality of leaves"""
    if isinstance(a, TabVal) and isinstance(b, int): return a.where(lambda v: v == b)
    if isinstance(b, TabVal) and isinstance(a, int): return b.where(lambda v: v == a)
    if isinstance(a, TabVal): a = tabz(a)
    if isinstance(b, TabVal): b = tabz(b)
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)): return a == b
    if isinstance(a, str) and isinstance(b, str): return a == b
    if isinstance(a, str) or isinstance(b, str): return zstr(a) == zstr(b)
    if isz(a) or isz(b):
        if isz(a) and isz(b) and a.eq(b): return True
        if (isz(a) and z3.is_bool(a)) or (isz(b) and z3.is_bool(b)):
            if isinstance(a, int) and not isinstance(a, bool): b = toint(b)
            elif isinstance(b, int) and not isinstance(b, bool): a = toint(a)
            elif isz(a) and isz(b) and z3.is_bool(a) != z3.is_bool(b): a, b = toint(a), toint(b)
            else: return piff(a, b)
        return a == b
    if isinstance(a, StructV) and isinstance(b, StructV):
        return pand([eqv(a.f[k], b.f[k]) for k in a.f])
    if isinstance(a, OpaqueV) and isinstance(b, OpaqueV): return True
    raise Unsupported('== on %s/%s' % (type(a).__name__, type(b).__name__))
