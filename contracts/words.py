"""Readings as words: a SylString is abstracted to the sequence of its labels
(z3 Seq), a list of readings to a bag: length, elements and, per tracked word,
the number of occurrences among the first k elements.  The abstraction of the
SylString operations is itself discharged on the real code by seq_tasks."""
from contracts.spec import *
import models
Lab = z3.DeclareSort('Lab')
W = z3.SeqSort(Lab)
EPS = z3.Empty(W)
def zi(x): return z3.IntVal(x) if isinstance(x, int) else x
ZERO, ONE = z3.IntVal(0), z3.IntVal(1)
def ind(c): return z3.If(c, ONE, ZERO)

def lab(I, name, idx): return I.leaf(name, Lab, idx)
def word(v):
    if isz(v) and v.sort() == Lab: return z3.Unit(v)
    if isz(v) and v.sort() == W: return v
    raise Unsupported('reading from %r' % (v,))
class SylStr:
    def __call__(self, I, name, idx): return I.leaf(name, W, idx)
    def construct(self, I, e, argn):
        if not argn: return EPS
        return word(I.rv(argn[0]))
class SylStr1:
    """an opaque value that is only copied"""
    def __call__(self, I, name, idx): return I.leaf(name, Lab, idx)
    def construct(self, I, e, argn):
        if len(argn) != 1: raise Unsupported('construction')
        return I.rv(argn[0])
def append(I, this, args, node):
    a, b = I.deref_lv(this), word(I.deref_lv(args[0]))
    I.write(this, b if a.eq(EPS) else z3.Concat(a, b))
    return this
def assign(I, this, args, node):
    I.write(this, word(I.deref_lv(args[0]))); return this
HOOKS = {'SylString::operator+=': append, 'SylString::operator=': assign}

class BagV:
    """list of readings"""
    def __init__(self, n, el, tot, pre=None): self.n, self.el, self.tot, self.pre = n, el, tot, pre
    @staticmethod
    def fresh(I, name, idx=()):
        if idx: raise Unsupported('list of lists')
        n = z3.Int(name + '.n'); I.fact(n >= 0)
        el = z3.Function(name + '.el', z3.IntSort(), W); K = z3.Function(name + '.K', z3.IntSort(), W, z3.IntSort())
        for w in I.ghost.get('words', ()): I.fact(z3.And(K(ZERO, w) == 0, K(n, w) >= 0))
        return BagV(n, el, lambda w: K(n, w), K)
    @staticmethod
    def empty(): return BagV(ZERO, lambda i: EPS, lambda w: ZERO)
    def push(self, v):
        return BagV(self.n + 1, lambda i: z3.If(i == self.n, v, self.el(i)), lambda w: self.tot(w) + ind(v == w))
    def elem_(self, I, i):
        if self.pre is None: raise Unsupported('element of a list being built')
        i = zi(i); v = self.el(i)
        for w in I.ghost.get('words', ()):
            I.fact(z3.Implies(z3.And(i >= 0, i < self.n), self.pre(z3.simplify(i + 1), w) == self.pre(i, w) + ind(v == w)))
        return v
    def havoc_(self, I, name): return BagV.fresh(I, name)
    def iter_lv_(self, I, it, n):
        I.ob('iter-deref:%s' % I.where(), pand([le(0, it.i), lt(it.i, self.n)]), 'safety', n.get('line') if n else None)
        return it.c.e(it.i)
    def limit(self, it): return self.n
    def method_(self, I, base, name, args, n):
        a = [I.deref_lv(x) for x in args]
        if name in ('begin', 'cbegin'): return IterV(base, 0)
        if name in ('end', 'cend'): return IterV(base, self.n)
        if name == 'size': return self.n
        if name == 'empty': return self.n == 0
        if name in ('push_back', 'emplace_back') and len(a) == 1:
            I.write(base, self.push(word(a[0]))); return None
        if name in ('push_front', 'emplace_front') and len(a) == 1:
            I.write(base, BagV(self.n + 1, None, (lambda s, v: lambda w: s.tot(w) + ind(v == w))(self, word(a[0])))); return None
        if name in ('splice', 'insert', 'merge') and len(a) >= 2 and isinstance(a[0], IterV):
            if len(a) == 2 and isinstance(a[1], BagV):
                o = a[1]
                I.write(base, BagV(self.n + o.n, None, lambda w: self.tot(w) + o.tot(w)))
                if name == 'splice': I.write(args[1], BagV.empty())
                return None
            if len(a) == 2 and isz(a[1]):
                I.write(base, self.push(word(a[1]))); return None
            if len(a) == 3 and isinstance(a[1], IterV) and isinstance(a[2], IterV) and name == 'insert':
                o = I.read(a[1].c)
                if isinstance(o, BagV) and I.entails(zb(pand([eqi(a[1].i, 0), eqi(a[2].i, o.n)]))):
                    I.write(base, BagV(self.n + o.n, None, lambda w: self.tot(w) + o.tot(w))); return None
        if name == 'clear': I.write(base, BagV.empty()); return None
        if name == 'operator=' and isinstance(a[0], BagV): I.write(base, a[0]); return base
        raise Unsupported('list method ' + name)
class BagHook:
    def __call__(self, I, name, idx): return BagV.fresh(I, name, idx)
    def construct(self, I, e, argn):
        argn = [a for a in argn if a['kind'] != 'CXXDefaultArgExpr']
        if not argn: return BagV.empty()
        v = I.rv(argn[0])
        if isinstance(v, BagV): return v
        raise Unsupported('list construction')
LISTS = ['std::list<SylString>', 'list<SylString>', 'std::list<SylString, std::allocator<SylString>>', 'std::__cxx11::list<SylString>']
FH = {'SylString': SylStr(), 'Syl': lab}
for t in LISTS: FH[t] = BagHook()

def seq_tasks(P):
    """SylString is the sequence of its syllables: construction, copy, append"""
    def run(I):
        def cont(s): return I.read(call(I, 'SylString::begin', s, pred=lambda n: 'const' in n['type']['qualType']).c)
        def same(x, y): return pand([eqv(x.f[k], y.f[k]) if not isinstance(x.f[k], SeqV) else models.seq_eq(I, x.f[k], y.f[k]) for k in x.f])
        j = z3.Int('j')
        def is_(what, s, n, at):
            c = cont(s)
            I.ob('%s: length' % what, eqi(c.n, n), 'post')
            if not I.branch(z3.And(j >= 0, j < zi(n))): return
            I.ob('%s: elements' % what, same(c.at(j), at(j)), 'post')
        y = I.fresh('Syl', 'y')
        a, b = I.alloc(I.fresh('SylString', 'a')), I.alloc(I.fresh('SylString', 'b'))
        A, B = cont(a), cont(b)
        one = lambda ps: [p.rstrip('&') for p in ps]
        def t(k, v): return I.branch(z3.Int('case') == k)
        if t(0, 0): is_('reading of one syllable', construct(I, 'SylString', lambda ps: one(ps) == ['Syl'], [I.alloc(y)]), 1, lambda j: y)
        elif t(1, 0): is_('empty reading', construct(I, 'SylString', lambda ps: ps == [], []), 0, lambda j: y)
        elif t(2, 0): is_('copy', construct(I, 'SylString', lambda ps: ps == ['SylString&'], [a]), A.n, A.at)
        elif t(3, 0): is_('move', construct(I, 'SylString', lambda ps: ps == ['SylString&&'], [a]), A.n, A.at)
        elif t(4, 0):
            call(I, 'SylString::operator+=', a, [I.alloc(y)], pred=ov('Syl')); is_('append a syllable', a, A.n + 1, lambda j: ite(j == A.n, y, A.at(j)))
        elif t(5, 0):
            call(I, 'SylString::operator+=', a, [b], pred=ov('SylString')); is_('append a reading', a, A.n + B.n, lambda j: ite(j < A.n, A.at(j), B.at(j - A.n)))
        elif t(6, 0):
            call(I, 'SylString::operator=', a, [b], pred=ov('SylString')); is_('assign a reading', a, B.n, B.at)
        else:
            call(I, 'SylString::operator=', a, [I.alloc(y)], pred=ov('Syl')); is_('assign a syllable', a, 1, lambda j: y)
    return [vc.Task('SylString operations', run)]
def ov(k):
    def p(node):
        ps = [interp.strip_type(interp.ctype(x)) for x in node.get('inner', []) if x['kind'] == 'ParmVarDecl']
        return ps == [k]
    return p

def path_tasks(FN, graph, D, member, hooks, fh):
    """FN lists every complete path of the graph exactly as often as it exists"""
    def setup(I): I.mmap = True; I.mmlite = True; I.quickms = 1000
    Z = z3.IntSort()
    PS = z3.Function('paths', Z, Z, W, Z)     # complete paths through the first i edges of n spelling w
    RK = z3.Function('rank', Z, Z)
    h, t0 = z3.Const('h', Lab), z3.Const('t', W)
    w1 = z3.Concat(z3.Unit(h), t0)
    class Ctx: pass
    def M(c, n, w): return PS(zi(n), c.f.N(n), w)
    def edge(c, n, i):
        """target and label of edge i of node n"""
        t = z3l = None
        for e in c.f.el(n, i):
            if e.sort() == Lab: z3l = e
            else: t = e
        return t, z3l
    def P_(c, n, i, w):
        """unfolds the path count"""
        I = c.I; i = z3.simplify(zi(i)); n = zi(n)
        r = PS(n, i, w)
        I.fact(z3.Implies(i <= 0, r == 0)); I.fact(r >= 0)
        p = z3.simplify(i - 1)
        t, l = edge(c, n, p)
        if w.eq(w1): x = z3.If(l == h, z3.If(c.f.N(t) == 0, ind(t0 == EPS), M(c, t, t0)), ZERO)
        elif w.eq(EPS): x = ZERO
        else: return r
        I.fact(z3.Implies(i > 0, r == PS(n, p, w) + x))
        I.fact(z3.Implies(z3.And(i > 0, i <= c.f.N(n)), z3.And(RK(t) >= 0, RK(t) < RK(n))))
        return r
    def listing(I):
        c = Ctx(); c.I = I
        w = w1 if I.branch(z3.Bool('the word is not empty')) else EPS
        I.ghost['words'] = [w, t0] if w is w1 else [w]
        g = I.alloc(I.fresh(graph, 'g'))
        cq = lambda n: n['type']['qualType'].rstrip().endswith('const')
        F = call(I, D + '::outBegin', g, pred=cq).c
        c.f = I.read(F)
        root = z3.Int('root'); I.fact(RK(root) >= 0)
        I.ghost['c05'] = (c, F, w, root)
        class Rec:
            loops = None
            def applies(self, node): return True
            def apply(self, I, node, tu, this, args):
                n = I.deref_lv(args[-1]); o = this if member else args[0]
                I.ob('the recursion lists the same graph', isinstance(o, LV) and o.same(g), 'pre')
                I.ob('the recursion goes down the graph', z3.And(RK(zi(n)) >= 0, RK(zi(n)) < RK(root)), 'termination')
                b = BagV.fresh(I, 'sub!%d' % I.newid())
                for x in I.ghost['words']: I.fact(b.tot(x) == M(c, n, x))
                I.fact((b.n == 0) == (c.f.N(n) == 0))
                return b
        I.contracts = {FN: Rec()}
        r = call(I, FN, g if member else None, [root] if member else [g, root], inline=True)
        r = I.deref_lv(r)
        if not isinstance(r, BagV): raise Unsupported('result')
        I.ob('every word occurs as often as complete paths spell it', r.tot(w) == P_(c, root, c.f.N(root), w), 'post')
        I.ob('the list is empty exactly when no edge leaves the start', (r.n == 0) == (c.f.N(root) == 0), 'post')
        I.ob('the graph is unchanged', I.read(F) is c.f, 'frame')
    def spec(I0, i, n):
        def cands(ctx):
            I = ctx.I; out = []
            gh = I.ghost.get('c05')
            if gh is None: return out
            c, F, w, root = gh
            bags, edges, subs = [], [], []
            for nm, lv in list(ctx.fr.names.items()):
                try: v = I.read(lv)
                except Exception: continue
                if isinstance(v, BagV):
                    try: e = ctx.at_entry(lv)
                    except Exception: continue
                    bags.append((nm, v, e))
                elif isinstance(v, IterV) and v.c.same(F) and v.key is not None: edges.append((nm, v))
                elif isinstance(v, IterV) and isinstance(I.read(v.c), BagV): subs.append((nm, v.c, v.i))
            if getattr(ctx, 'cont', None) is not None:
                if isinstance(I.read(ctx.cont), BagV): subs.append(('idx', ctx.cont, ctx.idx))
            for en, it in edges:
                P_(c, it.key, zi(it.i) + 1, w)
                out.append(('%s:key' % en, it.key == root))
                out.append(('%s:range' % en, z3.And(zi(it.i) >= 0, zi(it.i) <= c.f.N(it.key))))
                for bn, b, e in bags:
                    out.append(('%s:%s:paths' % (bn, en), b.tot(w) == P_(c, it.key, it.i, w)))
                    out.append(('%s:%s:size' % (bn, en), b.n >= zi(it.i)))
                    out.append(('%s:%s:none' % (bn, en), (b.n == 0) == (zi(it.i) == 0)))
            for sn, cl, j in subs:
                s = I.read(cl)
                if s.pre is None: continue
                for bn, b, e in bags:
                    if not isinstance(e, BagV): continue
                    out.append(('%s:%s:len' % (bn, sn), b.n == e.n + zi(j)))
                    for en, it in edges:
                        l = edge(c, it.key, it.i)[1]
                        if w is not EPS: out.append(('%s:%s:%s:count' % (bn, sn, en), b.tot(w) == e.tot(w) + z3.If(l == h, s.pre(zi(j), t0), ZERO)))
                        else: out.append(('%s:%s:%s:count' % (bn, sn, en), b.tot(w) == e.tot(w)))
            return out
        return dict(cands=cands)
    class Everywhere(dict):
        def get(self, q, d=None): return spec
    return [vc.Task(FN, listing, hooks=hooks, fresh_hooks=fh, loopspecs=Everywhere(), setup=setup)]
