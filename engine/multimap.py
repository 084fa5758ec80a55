"""std::multimap as a family of per-key sequences plus a multiplicity function
(trusted model of the standard container: insertion at the upper bound of the
key's range, erasure keeps every other iterator valid)."""
import z3
from vals import *
from program import strip_type, targs

def leaves(v, path=()):
    if isinstance(v, StructV):
        for k in v.f: yield from leaves(v.f[k], path + (k,))
    elif isz(v): yield path, v
    elif isinstance(v, bool): yield path, z3.BoolVal(v)
    elif isinstance(v, int): yield path, z3.IntVal(v)
    else: raise Unsupported('multimap element part %s' % type(v).__name__)
def rebuild(v, it):
    if isinstance(v, StructV): return StructV(v.t, {k: rebuild(v.f[k], it) for k in v.f})
    return next(it)
def zi(x): return z3.IntVal(x) if isinstance(x, int) else x

class MMV:
    def __init__(self, I, name, et, kind='multimap'):
        self.I, self.name, self.et = I, name, et
        self.vt = targs(et.replace('std::', ''))[1] if et.startswith('std::pair') else targs(et)[1]
        self.shape = I.fresh(self.vt, name + '.shape')
        ls = list(leaves(self.shape))
        self.sorts = [l.sort() for _, l in ls]
        Z = z3.IntSort()
        self.Nf = z3.Function(name + '.N', Z, Z)
        self.elf = [z3.Function('%s.el%d' % (name, i), Z, Z, s) for i, s in enumerate(self.sorts)]
        self.cntf = z3.Function(name + '.cnt', *([Z] + self.sorts + [Z]))
        self.Wf = z3.Function(name + '.W', *([Z] + self.sorts + [Z]))
        self.glob = None
        self.lite = getattr(I, 'mmlite', False)     # read only: no counting axioms
        if self.lite: return
        k, i = z3.Ints('k!mm i!mm')
        xs = [z3.Const('x%d!mm' % j, s) for j, s in enumerate(self.sorts)]
        el = [f(k, i) for f in self.elf]
        inr = z3.And(i >= 0, i < self.Nf(k))
        I.fact(z3.ForAll([k], self.Nf(k) >= 0, patterns=[self.Nf(k)]))
        I.fact(z3.ForAll([k, i], z3.Implies(inr, z3.And(self.cntf(k, *el) >= 1,
               z3.Implies(self.cntf(k, *el) <= 1, self.Wf(k, *el) == i))), patterns=el))
        w = self.Wf(k, *xs)
        I.fact(z3.ForAll([k] + xs, z3.And(self.cntf(k, *xs) >= 0, z3.Implies(self.cntf(k, *xs) >= 1,
               z3.And([w >= 0, w < self.Nf(k)] + [f(k, w) == x for f, x in zip(self.elf, xs)]))), patterns=[self.cntf(k, *xs)]))
    def N(self, k):
        r = self.Nf(zi(k))
        if self.lite: self.I.fact(r >= 0)
        return r
    def el(self, k, i): return [f(zi(k), zi(i)) for f in self.elf]
    def cnt(self, k, xs): return self.cntf(zi(k), *xs)
    def split(self, v): return [l for _, l in leaves(v)]
    def val(self, k, i): return rebuild(self.shape, iter(self.el(k, i)))
    def total(self):
        if self.glob is None:
            Z = z3.IntSort(); nm = self.name; I = self.I
            M = z3.Int(nm + '.M'); gk = z3.Function(nm + '.gk', Z, Z); gi = z3.Function(nm + '.gi', Z, Z); G = z3.Function(nm + '.G', Z, Z, Z)
            self.glob = (M, gk, gi, G)
        M, gk, gi, G = self.glob
        I = self.I
        if self.lite: return self.glob
        g, k, i = z3.Ints('g!mm k!mm i!mm')
        if self.name not in I.ghost.setdefault('mm-total', set()):
            I.ghost['mm-total'].add(self.name)
            I.fact(M >= 0)
            I.fact(z3.ForAll([g], z3.Implies(z3.And(g >= 0, g < M), z3.And(gi(g) >= 0, gi(g) < self.Nf(gk(g)), G(gk(g), gi(g)) == g)), patterns=[gk(g), gi(g)]))
            I.fact(z3.ForAll([k, i], z3.Implies(z3.And(i >= 0, i < self.Nf(k)), z3.And(G(k, i) >= 0, G(k, i) < M, gk(G(k, i)) == k, gi(G(k, i)) == i)), patterns=[self.elf[0](k, i)]))
        return self.glob
    def havoc_(self, I, name): return MMV(I, name, self.et)

    # -- operations producing new versions
    def new(self, I):
        if self.lite: raise Unsupported('change of a graph taken as given')
        return MMV(I, 'mm!%d' % I.newid(), self.et)
    def define(self, I, m, N, el, cnt):
        k, i = z3.Ints('k!mm i!mm')
        xs = [z3.Const('x%d!mm' % j, s) for j, s in enumerate(self.sorts)]
        I.fact(z3.ForAll([k], m.Nf(k) == N(k), patterns=[m.Nf(k)]))
        for j, f in enumerate(m.elf):
            I.fact(z3.ForAll([k, i], f(k, i) == el(k, i, j), patterns=[f(k, i)]))
        I.fact(z3.ForAll([k] + xs, m.cntf(k, *xs) == cnt(k, xs), patterns=[m.cntf(k, *xs)]))
    def inserted(self, I, k0, x0):
        m = self.new(I); k0 = zi(k0)
        I.fact(m.total()[0] == self.total()[0] + 1)
        x0 = [zi(x) if isinstance(x, int) else x for x in x0]
        one, zero = z3.IntVal(1), z3.IntVal(0)
        self.define(I, m, lambda k: self.Nf(k) + z3.If(k == k0, one, zero),
                    lambda k, i, j: z3.If(z3.And(k == k0, i == self.Nf(k0)), x0[j], self.elf[j](k, i)),
                    lambda k, xs: self.cntf(k, *xs) + z3.If(z3.And([k == k0] + [a == b for a, b in zip(xs, x0)]), one, zero))
        return m
    def erased(self, I, k0, i0):
        m = self.new(I); k0 = zi(k0); i0 = zi(i0)
        I.fact(m.total()[0] == self.total()[0] - 1)
        x0 = self.el(k0, i0); one, zero = z3.IntVal(1), z3.IntVal(0)
        self.define(I, m, lambda k: self.Nf(k) - z3.If(k == k0, one, zero),
                    lambda k, i, j: z3.If(z3.And(k == k0, i >= i0), self.elf[j](k, i + 1), self.elf[j](k, i)),
                    lambda k, xs: self.cntf(k, *xs) - z3.If(z3.And([k == k0] + [a == b for a, b in zip(xs, x0)]), one, zero))
        return m
    def cleared(self, I, k0):
        m = self.new(I); zero = z3.IntVal(0)
        c = lambda k: z3.BoolVal(True) if k0 is None else k == zi(k0)
        self.define(I, m, lambda k: z3.If(c(k), zero, self.Nf(k)), lambda k, i, j: self.elf[j](k, i),
                    lambda k, xs: z3.If(c(k), zero, self.cntf(k, *xs)))
        return m

    def pinned(self, q):
        """a traversal iterator as an element of its key's range (its place in
        the traversal is given up: it can only be dereferenced from now on)"""
        M, gk, gi, G = self.total()
        return IterV(q.c, gi(zi(q.i)), key=gk(zi(q.i)))

    # -- interface used by the executor
    def limit(self, it): return self.total()[0] if it.key is None else self.N(it.key)
    def iter_lv_(self, I, it, n):
        I.ob('iter-deref:%s' % I.where(), pand([le(0, it.i), lt(it.i, self.limit(it))]), 'safety', n.get('line') if n else None)
        if it.key is None:
            M, gk, gi, G = self.total()
            k, i = gk(zi(it.i)), gi(zi(it.i))
        else: k, i = it.key, it.i
        lv = I.alloc(StructV('pair', {'first': k, 'second': self.val(k, i)}))
        I.readonly.add(lv.loc)
        return lv
    def method_(self, I, base, name, args, n):
        a = [I.deref_lv(x) for x in args]
        it = lambda k, i: IterV(base, i, key=zi(k))
        if name in ('begin', 'cbegin'): self.total(); return IterV(base, 0)
        if name in ('end', 'cend'): return IterV(base, self.total()[0])
        if name == 'size': return self.total()[0]
        if name == 'empty': return self.total()[0] == 0
        if name == 'equal_range':
            return StructV('pair', {'first': it(a[0], 0), 'second': it(a[0], self.N(a[0]))})
        if name == 'lower_bound': return it(a[0], 0)
        if name == 'upper_bound': return it(a[0], self.N(a[0]))
        if name == 'count': return self.N(a[0])
        if name in ('insert', 'emplace'):
            if len(a) == 1 and isinstance(a[0], StructV) and a[0].t == 'pair': k, v = a[0].f['first'], a[0].f['second']
            elif len(a) == 2 and not isinstance(a[0], IterV): k, v = a
            else: raise Unsupported('multimap ' + name)
            if not isinstance(v, StructV) and isinstance(self.shape, StructV): raise Unsupported('multimap element')
            k = toint(k)
            m = self.inserted(I, k, self.split(v))
            I.write(base, m)
            N = self.N(k)
            def mv(q):
                if q.key is None: return self.pinned(q)
                return q.at(z3.If(z3.And(q.key == zi(k), zi(q.i) == N), zi(q.i) + 1, zi(q.i)))
            I.iters_of(base, mv)
            return it(k, N)
        if name == 'erase' and len(a) == 1:
            if not isinstance(a[0], IterV):
                I.write(base, self.cleared(I, a[0]))
                I.iters_of(base, lambda q: q.at(z3.Int('dangling!%d' % I.newid())) if q.key is None else q.at(z3.If(q.key == zi(a[0]), z3.If(zi(q.i) == self.N(a[0]), 0, z3.Int('dangling!%d' % I.newid())), zi(q.i))))
                return self.N(a[0])
            q0 = a[0]
            I.ob('erase-valid:%s' % I.where(), pand([le(0, q0.i), lt(q0.i, self.limit(q0))]), 'safety', n.get('line'))
            if q0.key is None:
                M, gk, gi, G = self.total()
                k, i = gk(zi(q0.i)), gi(zi(q0.i))
            else: k, i = q0.key, zi(q0.i)
            m = self.erased(I, k, i)
            I.write(base, m)
            def mv(q):
                d = z3.Int('dangling!%d' % I.newid())
                if q.key is None: q = self.pinned(q)
                return q.at(z3.If(q.key == k, z3.If(zi(q.i) > i, zi(q.i) - 1, z3.If(zi(q.i) == i, d, zi(q.i))), zi(q.i)))
            I.iters_of(base, mv)
            if q0.key is None: return IterV(base, z3.Int('dangling!%d' % I.newid()))
            return it(k, i)
        if name == 'clear':
            I.write(base, self.cleared(I, None)); return None
        if name == 'operator=':
            I.write(base, a[0]); return base
        raise Unsupported('multimap method ' + name)

def empty(I, et):
    m = MMV(I, 'mm!%d' % I.newid(), et)
    k = z3.Int('k!mm')
    xs = [z3.Const('x%d!mm' % j, s) for j, s in enumerate(m.sorts)]
    I.fact(z3.ForAll([k], m.Nf(k) == 0, patterns=[m.Nf(k)]))
    I.fact(z3.ForAll([k] + xs, m.cntf(k, *xs) == 0, patterns=[m.cntf(k, *xs)]))
    I.fact(m.total()[0] == 0)
    return m
