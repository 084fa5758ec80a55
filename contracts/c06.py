"""C06: grouping preserves the language of the graph."""
from contracts.spec import *
import contracts.c04 as c04
import contracts.words as words
from contracts.words import W, EPS, Lab, word, ov
from contracts.c04 import Val, zi
BOUND = 'all 4096 graphs on four nodes with up to two labels per pair; random graphs of up to 9 nodes and 24 edges'
ASSUMPTIONS = ['std::multimap, std::list: the C++ standard\'s description',
               'the graph is acyclic and no edge enters node 0, as the property presupposes',
               'syllables are compared without their positions (operator==), fractions by their alternatives',
               'edge operations of the graph behave as discharged under C04; order of readings as discharged under C02']
D = 'DAG<PronunFrac>'
EXTRA_TU = ('inst_dag.cxx',)
Z = z3.IntSort()
# a fraction is a set of words
CARD = z3.Function('card', Val, Z)
THE = z3.Function('the', Val, W)            # its word, when it has exactly one
IN = z3.Function('in', Val, W, z3.BoolSort())
MK = z3.Function('mk', W, Val)              # {w}
RK = z3.Function('rank', Z, Z)
w0 = z3.Const('w0', W)
def edge_of(el):
    t = v = None
    for e in el:
        if e.sort() == Val: v = e
        else: t = e
    return t, v

# ------------------------------------------------------------------ lemmas
def lemmas():
    """contracting a node with one edge in and one out keeps every language"""
    def run(I):
        m, s, d, n = z3.Ints('m s d n'); f, g, w = z3.Const('f', W), z3.Const('g', W), z3.Const('w', W)
        E_ = z3.Function('E', Z, Z, W, z3.BoolSort()); A = z3.Function('A', Z, W, z3.BoolSort()); A1 = z3.Function("A'", Z, W, z3.BoolSort())
        L = z3.Function('leaf', Z, z3.BoolSort()); L1 = z3.Function("leaf'", Z, z3.BoolSort())
        fg = z3.Concat(f, g)
        def E(a, b, u):
            I.fact(z3.And((b == m) == (z3.And(b == m, True)), True))
            I.fact(z3.Implies(b == m, E_(a, b, u) == z3.And(a == s, u == f)))
            I.fact(z3.Implies(a == m, E_(a, b, u) == z3.And(b == d, u == g)))
            return E_(a, b, u)
        def E1(a, b, u): return z3.Or(z3.And(E(a, b, u), a != m, b != m), z3.And(a == s, b == d, u == fg))
        I.fact(z3.And(s != m, d != m, n != m))
        def case(k): return I.branch(z3.Int('case') == k)
        b, u, t, v, t2, u2, v2 = z3.Int('b'), z3.Const('u', W), z3.Int('t'), z3.Const('v', W), z3.Int('t2'), z3.Const('u2', W), z3.Const('v2', W)
        E(s, m, f); E(m, d, g)
        if case(0): I.ob('lemma: a node with an edge keeps one', z3.Implies(E(n, b, u), z3.Or(E1(n, b, u), E1(n, d, fg))), 'lemma'); return
        if case(1): I.ob('lemma: no node gains its first edge', z3.Implies(E1(n, b, u), z3.Or(E(n, b, u), E(n, m, f))), 'lemma'); return
        # induction on the rank: below n the languages agree away from m
        def C(x, y): return z3.If(L(x), y == EPS, A(x, y))
        def C1(x, y): return z3.If(L1(x), y == EPS, A1(x, y))
        def ih(x, y): I.fact(z3.Implies(x != m, z3.And(L(x) == L1(x), A(x, y) == A1(x, y))))
        I.fact(z3.Not(L(m)))
        for x, y in ((t, v), (t2, v2), (d, v2), (d, v)): ih(x, y)
        if case(2):
            I.fact(z3.And(E(n, t, u), w == z3.Concat(u, v), C(t, v)))
            # unfolding of the language of the target
            I.fact(z3.Implies(z3.And(t == m, A(m, v)), z3.And(E(m, t2, u2), v == z3.Concat(u2, v2), C(t2, v2))))
            I.ob('lemma: no word is lost', z3.Or(z3.And(E1(n, t, u), w == z3.Concat(u, v), C1(t, v)),
                                                 z3.And(E1(n, d, fg), w == z3.Concat(fg, v2), C1(d, v2))), 'lemma')
            return
        I.fact(z3.And(E1(n, t, u), w == z3.Concat(u, v), C1(t, v)))
        gv = z3.Concat(g, v)
        # folding: g followed by what d accepts is accepted at m
        I.fact(z3.Implies(z3.And(E(m, d, g), C(d, v)), A(m, gv)))
        I.ob('lemma: no word is gained', z3.Or(z3.And(E(n, t, u), w == z3.Concat(u, v), C(t, v)),
                                               z3.And(E(n, m, f), w == z3.Concat(f, gv), C(m, gv))), 'lemma')
    return [vc.Task('lemma: contraction of a node', run)]

# ------------------------------------------------------- listing of the chains
def latt_add(I, this, args, node):
    b = I.deref_lv(this); I.write(this, b.push(word(I.deref_lv(args[0])))); return this
def nodelattice():
    hooks = {'PronunChain::operator+=': words.append, 'PronunChain::operator=': words.assign, 'PronunLatt::operator+=': latt_add,
             'PronunLatt::altCount': lambda I, this, args, node: I.deref_lv(this).n,
             'PronunLatt::begin': lambda I, this, args, node: IterV(this, 0),
             'PronunLatt::end': lambda I, this, args, node: IterV(this, I.deref_lv(this).n)}
    class Latt(words.BagHook):
        def construct(self, I, e, argn):
            argn = [a for a in argn if a['kind'] != 'CXXDefaultArgExpr']
            if not argn: return words.BagV.empty()
            v = I.rv(argn[0])
            if isinstance(v, words.BagV): return v
            return words.BagV.empty().push(word(v))
    fh = {'PronunChain': words.SylStr(), 'PronunFrac': words.lab, 'PronunLatt': Latt()}
    return words.path_tasks('FracDAG::nodeLattice', 'FracDAG', D, True, hooks, fh)

def seqops():
    """chains and lattices are sequences: construction, copy, append"""
    out = []
    def ops(cls, elem, joins):
        def run(I):
            def cont(s): return I.read(call(I, cls + '::begin', s, pred=lambda n: 'const' in n['type']['qualType']).c)
            j = z3.Int('j')
            def is_(what, s, n, at):
                c = cont(s)
                I.ob('%s: length' % what, eqi(c.n, n), 'post')
                if not I.branch(z3.And(j >= 0, j < zi(n))): return
                I.ob('%s: elements' % what, c.at(j) == at(j), 'post')
            y = I.fresh(elem, 'y')
            a, b = I.alloc(I.fresh(cls, 'a')), I.alloc(I.fresh(cls, 'b'))
            A, B = cont(a), cont(b)
            def t(k): return I.branch(z3.Int('case') == k)
            if t(0): is_('one element', construct(I, cls, lambda ps: ps == [elem + '&'], [I.alloc(y)]), 1, lambda j: y)
            elif t(1): is_('empty', construct(I, cls, lambda ps: ps == [], []), 0, lambda j: y)
            elif t(2): is_('copy', construct(I, cls, lambda ps: ps == [cls + '&'], [a]), A.n, A.at)
            elif t(3): is_('move', construct(I, cls, lambda ps: ps == [cls + '&&'], [a]), A.n, A.at)
            elif t(4):
                call(I, cls + '::operator+=', a, [I.alloc(y)], pred=ov(elem)); is_('append an element', a, A.n + 1, lambda j: z3.If(j == A.n, y, A.at(j)))
            elif t(5):
                call(I, cls + '::operator=', a, [b], pred=ov(cls)); is_('assign', a, B.n, B.at)
            elif joins:
                call(I, cls + '::operator+=', a, [b], pred=ov(cls)); is_('append a sequence', a, A.n + B.n, lambda j: z3.If(j < A.n, A.at(j), B.at(j - A.n)))
            else:
                r = call(I, cls + '::altCount', a); I.ob('altCount is the length', eqi(r, A.n), 'post')
        return vc.Task(cls + ' operations', run, fresh_hooks={elem: words.lab})
    return [ops('PronunChain', 'PronunFrac', True), ops('PronunLatt', 'PronunChain', False)]

# ---------------------------------------------------------- merging of the graph
class Op:
    loops = None
    def applies(self, node): return True
def moved(I, C, old, fn):
    """iterators into C after a change: traversal positions are given up"""
    def mv(q):
        if q.key is None: q = old.pinned(q)
        return fn(q)
    I.iters_of(C, mv)
def dang(I): return z3.Int('dangling!%d' % I.newid())
class AddEdge(Op):
    def apply(self, I, node, tu, this, args):
        a, b, v = [I.deref_lv(x) for x in args]
        g = c04.G(I, D, this)
        if I.branch(g.inF(a, b, v) >= 1): return False
        for C, m, k, x in ((g.F, g.f, a, [zi(b), v]), (g.T, g.t, b, [zi(a), v])):
            I.write(C, m.inserted(I, k, x))
            moved(I, C, m, lambda q, m=m, k=k: q.at(z3.If(z3.And(q.key == zi(k), zi(q.i) == m.N(k)), zi(q.i) + 1, zi(q.i))))
        return True
class RemoveEdge(Op):
    def apply(self, I, node, tu, this, args):
        a, b, v = [I.deref_lv(x) for x in args]
        g = c04.G(I, D, this)
        if not I.branch(g.inF(a, b, v) >= 1): return False
        for C, m, k, x in ((g.F, g.f, a, [zi(b), v]), (g.T, g.t, b, [zi(a), v])):
            i = m.Wf(zi(k), *x)
            I.write(C, m.erased(I, k, i))
            moved(I, C, m, lambda q, m=m, k=k, i=i: q.at(z3.If(q.key == zi(k), z3.If(zi(q.i) > i, zi(q.i) - 1, z3.If(zi(q.i) == i, dang(I), zi(q.i))), zi(q.i))))
        return True
class RemoveDirect(Op):
    def apply(self, I, node, tu, this, args):
        a, b = [zi(I.deref_lv(x)) for x in args]
        g = c04.G(I, D, this)
        had = g.any(a, b)
        for C, m, k, far in ((g.F, g.f, a, b), (g.T, g.t, b, a)):
            n = m.new(I)
            kk, ii, x = z3.Ints('k!mm i!mm x!mm'); v = z3.Const('v!mm', Val)
            I.fact(z3.ForAll([kk], z3.And(n.Nf(kk) <= m.Nf(kk), z3.Implies(kk != k, n.Nf(kk) == m.Nf(kk))), patterns=[n.Nf(kk)]))
            for p, q in zip(n.elf, m.elf): I.fact(z3.ForAll([kk, ii], z3.Implies(kk != k, p(kk, ii) == q(kk, ii)), patterns=[p(kk, ii)]))
            I.fact(z3.ForAll([kk, x, v], n.cntf(kk, x, v) == z3.If(z3.And(kk == k, x == far), z3.IntVal(0), m.cntf(kk, x, v)), patterns=[n.cntf(kk, x, v)]))
            I.fact(n.total()[0] == m.total()[0] - m.Nf(k) + n.Nf(k))
            if m is g.f: I.fact(n.Nf(k) == m.Nf(k) - between(I, m, a, b, m.Nf(k)))
            I.write(C, n)
            moved(I, C, m, lambda q, k=k: q.at(z3.If(q.key == k, dang(I), zi(q.i))))
        return had
def between(I, m, a, b, i):
    """edges a -> b among the first i edges of a (unfolded once)"""
    B = z3.Function('between!' + m.name, Z, Z, Z, Z)
    i = z3.simplify(zi(i)); p = z3.simplify(i - 1)
    I.fact(z3.Implies(i <= 0, B(a, b, i) == 0))
    I.fact(z3.Implies(i > 0, B(a, b, i) == B(a, b, p) + z3.If(edge_of(m.el(a, p))[0] == b, z3.IntVal(1), z3.IntVal(0))))
    return B(a, b, i)
class Degree(Op):
    def __init__(self, out): self.out = out
    def apply(self, I, node, tu, this, args):
        g = c04.G(I, D, this); k = I.deref_lv(args[0])
        return g.f.N(k) if self.out else g.t.N(k)
OPS = {D + '::addEdge': AddEdge(), D + '::removeEdge': RemoveEdge(), D + '::removeDirectEdges': RemoveDirect(), D + '::isEdgeExist': c04.IsEdge(D),
       D + '::outDegree': Degree(True), D + '::inDegree': Degree(False)}

def mk(I, w):
    v = MK(w)
    I.fact(z3.And(CARD(v) == 1, THE(v) == w, IN(v, w0) == (w0 == w)))
    return v
def alts(I, v, end):
    n = CARD(v)
    I.fact(n >= 0)
    A = z3.Function('alt', Val, Z, W)
    I.fact(z3.Implies(n >= 1, A(v, z3.IntVal(0)) == THE(v)))
    l = I.alloc(SeqV('SylString', n, lambda j: A(v, zi(j)), None, None, 'list'))
    I.readonly.add(l.loc)
    return IterV(l, n if end else 0)
class Frac:
    def __call__(self, I, name, idx): return I.leaf(name, Val, idx)
    def construct(self, I, e, argn):
        if not argn:
            v = z3.Const('frac!%d' % I.newid(), Val)
            I.fact(z3.And(CARD(v) == 0, z3.Not(IN(v, w0)))); return v
        vs = [I.rv(a) for a in argn]
        if len(vs) == 1 and isz(vs[0]) and vs[0].sort() == Val: return vs[0]
        if len(vs) == 2: return mk(I, word(vs[1]))
        raise Unsupported('construction of a fraction')
def frac_add(I, this, args, node):
    a, b = I.deref_lv(this), I.deref_lv(args[0])
    v = z3.Const('frac!%d' % I.newid(), Val)
    if b.sort() == Val: inb, n = IN(b, w0), CARD(b)
    else: inb, n = w0 == word(b), z3.IntVal(1)
    I.fact(z3.And(IN(v, w0) == z3.Or(IN(a, w0), inb), CARD(v) >= CARD(a), CARD(v) >= n, CARD(v) <= CARD(a) + n))
    I.write(this, v)
    return this
GH = dict(words.HOOKS)
GH.update({'PronunFrac::operator==': c04.veq(False), 'PronunFrac::operator+=': frac_add,
           'PronunFrac::begin': lambda I, this, args, node: alts(I, I.deref_lv(this), False),
           'PronunFrac::end': lambda I, this, args, node: alts(I, I.deref_lv(this), True),
           'PronunFrac::altCount': lambda I, this, args, node: CARD(I.deref_lv(this)),
           'PronunFrac::endPos': lambda I, this, args, node: z3.Int('endpos!%d' % I.newid()),
           'PronunFrac::setEndPos': lambda I, this, args, node: None})
GFH = {'PronunFrac': Frac(), 'SylString': words.SylStr(), 'Syl': words.lab}

def wellformed(I, g, single):
    """what holds of the graph throughout: indexes agree, fractions are not
    empty (one word each), edges go down in rank, nothing enters node 0"""
    a, b = z3.Ints('a!g b!g'); v = z3.Const('v!g', Val)
    c, d = g.f.cntf(a, b, v), g.t.cntf(b, a, v)
    return [('indexes agree', z3.ForAll([a, b, v], z3.And(c <= 1, c == d), patterns=[c, d])),
            ('fractions are not empty', z3.ForAll([a, b, v], z3.Implies(c >= 1, CARD(v) == 1 if single else CARD(v) >= 1), patterns=[c])),
            ('edges go down', z3.ForAll([a, b, v], z3.Implies(c >= 1, z3.And(RK(b) >= 0, RK(b) < RK(a))), patterns=[c])),
            ('nothing enters node 0', g.t.Nf(z3.IntVal(0)) == 0)]
def anyw(I, g, a, b):
    """some edge a -> b carries the word w0"""
    nm = g.f.name
    A = z3.Function('anyw!' + nm, Z, Z, z3.BoolSort()); S = z3.Function('somew!' + nm, Z, Z, Val)
    x, y = z3.Ints('a!g b!g'); v = z3.Const('v!g', Val); c = g.f.cntf(x, y, v)
    I.fact(z3.ForAll([x, y, v], z3.Implies(z3.And(c >= 1, IN(v, w0)), A(x, y)), patterns=[z3.MultiPattern(c, IN(v, w0))]))
    I.fact(z3.ForAll([x, y], z3.Implies(A(x, y), z3.And(g.f.cntf(x, y, S(x, y)) >= 1, IN(S(x, y), w0))), patterns=[A(x, y)]))
    return A(a, b), S(a, b)
class Cert:
    """last version of the graph known to have the language of the first"""
    def __init__(self, I, g, single, step): self.I, self.g, self.single, self.step = I, g, single, step; self.set(None)
    def set(self, it):
        self.g.snap(); self.f, self.t, self.it = self.g.f, self.g.t, it
        for nm, f in wellformed(self.I, self.g, self.single): self.I.fact(f)
    def check(self, when):
        I = self.I; self.g.snap()
        if self.g.f is self.f and self.g.t is self.t: return
        for nm, f in wellformed(I, self.g, self.single): I.ob('%s (%s)' % (nm, when), f, 'invariant')
        self.step(self, when)
def its(ctx, C): return [(nm, it) for nm, it in c04.its(ctx, C) if nm.split('.')[0] in ctx.names0]
def travs(ctx, C): return [(nm, it) for nm, it in its(ctx, C) if it.key is None]
def contraction(c, when):
    """the change since the certified version is the contraction of the node visited"""
    I, g = c.I, c.g
    if c.it is None: raise Unsupported('change of the graph outside the traversal')
    M, gk, gi, G = c.f.total()
    m = gk(zi(c.it.i))
    d, gv = edge_of(c.f.el(m, 0)); s, fv = edge_of(c.t.el(m, 0))
    I.ob('the node merged has one edge out and one edge in', z3.And(c.f.N(m) == 1, c.t.N(m) == 1), 'step')
    nv = MK(z3.Concat(THE(fv), THE(gv)))
    a, b, v = z3.Int('a!s'), z3.Int('b!s'), z3.Const('v!s', Val)
    spec = z3.Or(z3.And(c.f.cnt(a, [b, v]) >= 1, a != m, b != m), z3.And(a == s, b == d, v == nv))
    I.ob('the edges of the merged node are replaced by one edge with the words joined', g.f.cnt(a, [b, v]) == z3.If(spec, z3.IntVal(1), z3.IntVal(0)), 'step')
def regroup(c, when):
    """between any two nodes the same words as before"""
    I, g = c.I, c.g
    old = c04.G(I, D, g.g); old.f, old.t = c.f, c.t
    a, b = z3.Ints('a!s b!s')
    x, S = anyw(I, old, a, b); y, S1 = anyw(I, g, a, b)
    I.fact(z3.And(g.f.cnt(a, [b, S]) >= 0, c.f.cnt(a, [b, S1]) >= 0))     # mentions the witnesses
    I.ob('no word between two nodes is lost', z3.Implies(x, y), 'step')
    I.ob('no word between two nodes is gained', z3.Implies(y, x), 'step')
def merging():
    def spec(I0, i, n):
        def step(ctx, when):
            c = ctx.I.ghost.get('cert')
            if c is None: return
            t = travs(ctx, c.g.F)
            inner = getattr(ctx, 'cont', None) is not None or not t or any(k.key is not None and k.c.same(c.g.F) for _, k in its(ctx, c.g.F))
            if when == 'assume':
                if not inner: c.set(t[0][1])
                elif c.f is not I0.read(c.g.F): raise Unsupported('graph changed in an inner loop')
            elif not inner: c.check(when)
        def cands(ctx):
            I = ctx.I; out = []
            c = I.ghost.get('cert')
            if c is None or I.read(c.g.F) is not c.f: return out
            for tn, t in travs(ctx, c.g.F):
                M, gk, gi, G = c.f.total()
                out.append(('%s:range' % tn, z3.And(zi(t.i) >= 0, zi(t.i) <= M)))
                if c.single: continue
                fr = gk(zi(t.i)); to = edge_of(c.f.el(fr, gi(zi(t.i))))[0]
                old = c04.G(I, D, c.g.g); old.f, old.t = c.f, c.t
                A, S = anyw(I, old, fr, to)
                for en, e in its(ctx, c.g.F):
                    if e.key is None: continue
                    out.append(('%s:key' % en, e.key == fr))
                    out.append(('%s:range' % en, z3.And(zi(e.i) >= 0, zi(e.i) <= c.f.N(fr))))
                    for kn, k in ints(ctx):
                        between(I, c.f, fr, to, zi(e.i) + 1)
                        out.append(('%s:%s:direct' % (kn, en), k == between(I, c.f, fr, to, e.i)))
                    seen = zi(e.i) > c.f.Wf(fr, to, S)
                    for vn, v in vals(ctx):
                        out.append(('%s:%s:has' % (vn, en), z3.Implies(z3.And(A, seen), IN(v, w0))))
                        out.append(('%s:only' % vn, z3.Implies(IN(v, w0), A)))
                        out.append(('%s:%s:first' % (vn, en), z3.Implies(zi(e.i) > gi(zi(t.i)), CARD(v) >= 1)))
                        for kn, k in ints(ctx): out.append(('%s:%s:count' % (vn, kn), z3.Implies(k > 0, CARD(v) >= 1)))
            return out
        def lex(ctx):
            c = ctx.I.ghost.get('cert')
            if c is None: return None
            if len(travs(ctx, c.g.F)) != len(its(ctx, c.g.F)): return None
            M = ctx.I.read(c.g.F).total()[0]
            for tn, t in travs(ctx, c.g.F): return (M, M - zi(t.i))
        return dict(step=step, cands=cands, lex=lex)
    class Everywhere(dict):
        def get(self, q, d=None): return spec
    def setup(I): I.mmap = True; I.quickms = 500
    def prep(I, single, step):
        g = I.alloc(I.fresh('FracDAG', 'g')); gg = c04.G(I, D, g)
        I.ghost['cert'] = c = Cert(I, gg, single, step)
        return g, c
    def singles(I):
        g, c = prep(I, True, contraction)
        call(I, 'FracDAG::mergeSingles', g, inline=True)
        c.check('exit')
    def parallels(I):
        g, c = prep(I, False, regroup)
        call(I, 'FracDAG::mergeParallels', g, inline=True)
        c.check('exit')
    o = dict(hooks=GH, fresh_hooks=GFH, loopspecs=Everywhere(), setup=setup, contracts=OPS)
    return [vc.Task('FracDAG::mergeSingles', singles, **o), vc.Task('FracDAG::mergeParallels', parallels, **o)]
def vals(ctx):
    out = []
    for nm, lv in ctx.names0.items():
        try: v = ctx.I.read(lv)
        except Exception: continue
        if isz(v) and v.sort() == Val: out.append((nm, v))
    return out
def ints(ctx):
    out = []
    for nm, lv in ctx.names0.items():
        try: v = ctx.I.read(lv)
        except Exception: continue
        if (isz(v) and z3.is_int(v)) or (isinstance(v, int) and not isinstance(v, bool)): out.append((nm, zi(v)))
    return out

# ------------------------------------------------------------------ fractions
RD = z3.DeclareSort('Reading')              # readings with their positions
LT = z3.Function('lt', RD, RD, z3.BoolSort()); SAME = z3.Function('same', RD, RD, z3.BoolSort())
r0 = z3.Const('r0', RD)
def fractions():
    def order(I, a, b):
        """facts about the order of readings (C02)"""
        I.fact(z3.And(SAME(a, b) == SAME(b, a), z3.Not(z3.And(LT(a, b), LT(b, a))), z3.Implies(a == b, SAME(a, b)),
                      z3.Or(SAME(a, b), LT(a, b), LT(b, a))))
    def trans(I, a, b, c): I.fact(z3.Implies(z3.And(LT(a, b), LT(b, c)), LT(a, c)))
    def h(f):
        def g(I, this, args, node):
            a, b = I.deref_lv(this), I.deref_lv(args[0]); order(I, a, b)
            return f(a, b)
        return g
    hooks = {'SylString::operator<': h(lambda a, b: LT(a, b)), 'SylString::operator>': h(lambda a, b: LT(b, a)),
             'SylString::operator==': h(lambda a, b: SAME(a, b)), 'SylString::operator!=': h(lambda a, b: z3.Not(SAME(a, b))),
             'SylString::operator<=': h(lambda a, b: z3.Not(LT(b, a))), 'SylString::operator>=': h(lambda a, b: z3.Not(LT(a, b)))}
    fh = {'SylString': lambda I, name, idx: I.leaf(name, RD, idx)}
    def cont(I, f): return call(I, 'PronunFrac::begin', f, pred=lambda n: 'const' in n['type']['qualType']).c
    def fresh(I, nm):
        f = I.alloc(I.fresh('PronunFrac', nm)); c = I.read(cont(I, f))
        return f, c
    def sorted_(I, c):
        i, j = z3.Ints('i!q j!q')
        I.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < c.n), LT(c.at(i), c.at(j))), patterns=[z3.MultiPattern(c.at(i), c.at(j))]))
    def one(I):
        f, c = fresh(I, 'f'); s = z3.Const('s', RD)
        sorted_(I, c)
        I.ghost['frac'] = (f, c, s)
        r = call(I, 'PronunFrac::operator+=', f, [I.alloc(s)], pred=ov('SylString'), inline=True)
        n = I.read(cont(I, f)); j, k = z3.Ints('j k')
        I.ob('the fraction itself is returned', isinstance(r, LV) and r.same(f), 'post')
        for q in (j, k):
            for x in (n.at(q), c.at(q), c.at(q - 1)): order(I, x, s)
        for x in (c.at(j), c.at(j - 1)):
            for y in (c.at(k), c.at(k - 1)): trans(I, x, s, y); trans(I, s, x, y); trans(I, y, x, s); trans(I, x, y, s); trans(I, s, y, x)
        order(I, s, s)
        for q in I.ghost.get('pos', ()):
            order(I, c.at(q), s)
            for x in (c.at(j), c.at(j - 1), c.at(k), c.at(k - 1)): trans(I, s, c.at(q), x); trans(I, x, c.at(q), s)
        grew = eqi(n.n, add(c.n, 1))
        I.ob('the fraction grows by at most one', por([grew, eqi(n.n, c.n)]), 'post')
        inj, ink = z3.And(0 <= j, j < c.n), z3.And(0 <= k, k < n.n)
        I.ob('every alternative is kept', z3.Implies(inj, por([eqv(n.at(j), c.at(j)), pand([j + 1 < n.n, eqv(n.at(j + 1), c.at(j))])])), 'post')
        I.ob('nothing else is added', z3.Implies(ink, por([eqv(n.at(k), s), pand([k < c.n, eqv(n.at(k), c.at(k))]), pand([k >= 1, eqv(n.at(k), c.at(k - 1))])])), 'post')
        has = False
        for q in I.ghost.get('pos', ()): has = por([has, pand([q >= 0, q < n.n, SAME(n.at(q), s)])])
        I.ob('the reading is among the alternatives', has, 'post')
        I.ob('alternatives stay in strict order', z3.Implies(z3.And(0 <= j, j < k, k < n.n), LT(n.at(j), n.at(k))), 'post')
    def spec1(I0, i, n):
        def cands(ctx):
            I = ctx.I; out = []
            gh = I.ghost.get('frac')
            if gh is None: return out
            f, c, s = gh
            C = cont(I, f)
            for nm, it in c04.its(ctx, C):
                I.ghost['pos'] = [q for q in I.ghost.get('pos', []) if not z3.is_int_value(q)][:8] + [zi(it.i)]
                q = z3.Int('q!s')
                order(I, c.at(zi(it.i)), s)
                out.append(('%s:range' % nm, z3.And(zi(it.i) >= 0, zi(it.i) <= c.n)))
                out.append(('%s:below' % nm, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < zi(it.i)), LT(c.at(q), s)), patterns=[c.at(q)])))
                out.append(('%s:differ' % nm, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < zi(it.i)), z3.Not(SAME(c.at(q), s))), patterns=[c.at(q)])))
            return out
        return dict(cands=cands)
    # union of two fractions
    def has(I, c):
        d = I.ghost.setdefault('has', {})
        if id(c) not in d:
            b = z3.Bool('has!%d' % I.newid()); w = z3.Int('wit!%d' % I.newid()); q = z3.Int('q!s')
            I.fact(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < c.n, SAME(c.at(q), r0)), b), patterns=[c.at(q)]))
            I.fact(z3.Implies(b, z3.And(0 <= w, w < c.n, SAME(c.at(w), r0))))
            d[id(c)] = (b, w, c)
        return d[id(c)][:2]
    class Add1(Op):
        def applies(self, node): return ov('SylString')(node)
        def apply(self, I, node, tu, this, args):
            C = cont(I, this); c = I.read(C); s = I.deref_lv(args[0])
            n = I.havoc_val(c, 'u!%d' % I.newid())
            I.write(C, n)
            I.fact(z3.And(has(I, n)[0] == z3.Or(has(I, c)[0], SAME(s, r0)), n.n >= c.n, n.n >= 1, n.n <= c.n + 1))
            return this
    def spec2(I0, i, n):
        def cands(ctx):
            I = ctx.I; out = []
            gh = I.ghost.get('union')
            if gh is None: return out
            f, c, o, oc = gh
            cur = I.read(cont(I, f)); b, w = has(I, oc); e = has(I, c)[0]; x = has(I, cur)[0]
            out.append(('kept', z3.Implies(e, x))); out.append(('only', z3.Implies(x, z3.Or(e, b)))); out.append(('grows', cur.n >= c.n))
            for nm, ix in ctx.iters(cont(I, o)):
                out.append(('%s:taken' % nm, z3.Implies(z3.And(b, w < zi(ix)), x)))
                out.append(('%s:some' % nm, z3.Implies(zi(ix) > 0, cur.n >= 1)))
                out.append(('%s:size' % nm, cur.n <= c.n + zi(ix)))
                out.append(('%s:range' % nm, z3.And(0 <= zi(ix), zi(ix) <= oc.n)))
            return out
        return dict(cands=cands)
    def union(I):
        f, c = fresh(I, 'f'); o, oc = fresh(I, 'o')
        I.ghost['union'] = (f, c, o, oc)
        call(I, 'PronunFrac::operator+=', f, [o], pred=ov('PronunFrac'), inline=True)
        n = I.read(cont(I, f))
        I.ob('a reading is in the union exactly when it is in one of the two', has(I, n)[0] == z3.Or(has(I, c)[0], has(I, oc)[0]), 'post')
        I.ob('the union is not smaller than either and not larger than both', z3.And(n.n >= c.n, z3.Implies(oc.n >= 1, n.n >= 1), n.n <= c.n + oc.n), 'post')
        I.ob('the other fraction is unchanged', I.read(cont(I, o)) is oc, 'frame')
    def make(I):
        s = z3.Const('s', RD)
        f = construct(I, 'PronunFrac', lambda ps: ps == ['int', 'SylString&'], [z3.Int('p'), I.alloc(s)])
        n = I.read(cont(I, f)); order(I, s, s)
        I.ob('a fraction made from a reading has that reading only', z3.And(n.n == 1, SAME(zi(n.at(0)), s)), 'post')
        e = construct(I, 'PronunFrac', lambda ps: ps == [], [])
        I.ob('a new fraction is empty', eqi(I.read(cont(I, e)).n, 0), 'post')
        g, c = fresh(I, 'g')
        for nm, p in (('copy', ['PronunFrac&']), ('move', ['PronunFrac&&'])):
            h_ = construct(I, 'PronunFrac', lambda ps: ps == p, [I.alloc(I.read(g))]); k = I.read(cont(I, h_)); j = z3.Int('j')
            I.ob('%s of a fraction has the same alternatives' % nm, pand([eqi(k.n, c.n), z3.Implies(z3.And(j >= 0, j < c.n), k.at(j) == c.at(j))]), 'post')
            I.ob('altCount is the number of alternatives', eqi(call(I, 'PronunFrac::altCount', h_), c.n), 'post')
        e = call(I, 'PronunFrac::end', g, pred=lambda n: 'const' in n['type']['qualType']); b = call(I, 'PronunFrac::begin', g, pred=lambda n: 'const' in n['type']['qualType'])
        I.ob('begin and end bound the alternatives', pand([eqi(b.i, 0), eqi(e.i, c.n), e.c.same(b.c)]), 'post')
    # equality: alternative by alternative
    def equal(I):
        f, c = fresh(I, 'f'); o, oc = fresh(I, 'o')
        I.ghost['eq'] = (f, c, o, oc)
        r = I.truth(call(I, 'PronunFrac::operator==', f, [o], inline=True))
        q = z3.Int('q!s')
        all_ = z3.And(c.n == oc.n, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < c.n), SAME(c.at(q), oc.at(q))), patterns=[z3.MultiPattern(c.at(q), oc.at(q))]))
        I.ob('fractions are equal exactly when their alternatives are, one by one', piff(r, all_), 'post')
    def spec3(I0, i, n):
        def cands(ctx):
            I = ctx.I; out = []
            gh = I.ghost.get('eq')
            if gh is None: return out
            f, c, o, oc = gh; q = z3.Int('q!s')
            for nm, it in c04.its(ctx, cont(I, f)):
                if zi(it.i).eq(zi(c.n)): continue
                out.append(('%s:range' % nm, z3.And(zi(it.i) >= 0, zi(it.i) <= c.n)))
                out.append(('%s:same' % nm, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < zi(it.i)), SAME(c.at(q), oc.at(q))), patterns=[c.at(q), oc.at(q)])))
                for on, ot in c04.its(ctx, cont(I, o)):
                    out.append(('%s:%s' % (nm, on), zi(it.i) == zi(ot.i)))
                    out.append(('%s:range' % on, z3.And(zi(ot.i) >= 0, zi(ot.i) <= oc.n)))
            return out
        return dict(cands=cands)
    def ev(sp):
        class Everywhere(dict):
            def get(self, q, d=None): return sp
        return Everywhere()
    o = dict(hooks=hooks, fresh_hooks=fh)
    return [vc.Task('PronunFrac += reading', one, loopspecs=ev(spec1), **o),
            vc.Task('PronunFrac += fraction', union, loopspecs=ev(spec2), contracts={'PronunFrac::operator+=': Add1()}, **o),
            vc.Task('PronunFrac construction', make, **o), vc.Task('PronunFrac ==', equal, loopspecs=ev(spec3), **o)]

# ------------------------------------------------------------ chains, lattice
LG = z3.Function('language', Lab, Z)
def chains():
    def fc(I, lv): return call(I, 'PronunFrac::begin', lv, pred=lambda n: 'const' in n['type']['qualType']).c
    def cc(I, lv): return call(I, 'PronunChain::begin', lv, pred=lambda n: 'const' in n['type']['qualType']).c
    def alts_at(I, seq, j):
        t = I.alloc(seq)
        return I.read(fc(I, t.e(j)))
    class Chain:
        """last version of the chain known to expand to the readings of the first"""
        def __init__(self, I, c): self.I, self.c = I, c; self.set()
        def set(self): self.v = self.I.read(cc(self.I, self.c))
        def check(self, when):
            I = self.I; n = I.read(cc(I, self.c)); o = self.v
            if n is o: return
            j, k, i = z3.Ints('j!c k!c i!c')
            def same(x, y): return pand([eqi(x.n, y.n), pimp(z3.And(k >= 0, k < x.n), eqv(x.at(k), y.at(k)))])
            # which fraction was merged into its left neighbour: one of the positions at hand
            ps = [p for p in I.ghost.get('cpos', []) if isz(p) or isinstance(p, int)]
            if I.entails(zb(eqi(n.n, o.n))):
                if I.branch(z3.And(j >= 0, j < zi(o.n))):
                    I.ob('fractions unchanged (%s)' % when, same(alts_at(I, n, j), alts_at(I, o, j)), 'step')
                return
            for p in ps:
                p = zi(p)
                if I.entails(zb(eqi(alts_at(I, o, p).n, 1))) and I.entails(zb(eqi(alts_at(I, o, p + 1).n, 1))) and I.entails(zb(pand([p >= 0, p + 1 < o.n]))): break
            else: raise Unsupported('fractions merged at an unknown place')
            I.ob('one fraction less after merging (%s)' % when, eqi(n.n, sub(o.n, 1)), 'step')
            m = alts_at(I, n, p); x = z3.Concat(alts_at(I, o, p).at(0), alts_at(I, o, p + 1).at(0))
            I.ob('two fractions of one reading each become one with the readings joined (%s)' % when, pand([eqi(m.n, 1), m.at(0) == x]), 'step')
            if I.branch(z3.And(j >= 0, j < zi(n.n), j != p)):
                a, b = alts_at(I, n, j), alts_at(I, o, z3.If(j < p, j, j + 1))
                I.ob('the other fractions stay (%s)' % when, same(a, b), 'step')
    def spec(I0, i, n):
        def step(ctx, when):
            c = ctx.I.ghost.get('chain')
            if c is None: return
            C = cc(ctx.I, c.c)
            pos = [q for nm, q in ctx.iters(C)]
            if when == 'assume': c.set(); ctx.I.ghost['cpos'] = pos
            else: c.check(when)
        def cands(ctx):
            I = ctx.I; out = []
            c = I.ghost.get('chain')
            if c is None: return out
            C = cc(I, c.c); n = I.read(C)
            out.append(('shrinks', n.n <= ctx.at_entry(C).n))
            its = [(nm, q) for nm, q in ctx.iters(C) if nm in ctx.names0]
            for nm, q in its:
                q = zi(q)
                out.append(('%s:range' % nm, z3.And(q >= 0, q <= n.n)))
                out.append(('%s:before end' % nm, q < n.n))
                out.append(('%s:single' % nm, eqi(alts_at(I, n, q).n, 1)))
                for om, p in its:
                    if om != nm: out.append(('%s:after %s' % (nm, om), q == zi(p) + 1))
            return out
        def lex(ctx):
            c = ctx.I.ghost.get('chain')
            if c is None: return None
            C = cc(ctx.I, c.c); n = ctx.I.read(C).n
            qs = [q for nm, q in ctx.iters(C) if nm in ctx.names0]
            if len(qs) == 1: return (n - zi(qs[0]),)
            return (zi(n),)
        return dict(step=step, cands=cands, lex=lex)
    class Everywhere(dict):
        def __init__(self, s): self.s = s
        def get(self, q, d=None): return self.s
    def merge(I):
        c = I.alloc(I.fresh('PronunChain', 'c'))
        I.ghost['chain'] = k = Chain(I, c)
        r = call(I, 'PronunChain::mergeSingles', c, inline=True)
        I.ob('the chain itself is returned', isinstance(r, LV) and r.same(c), 'post')
        k.check('exit')
    def lem(I):
        a, u, v, b = [z3.Const(x, W) for x in 'auvb']
        I.ob('lemma: joining two neighbours keeps every expansion', z3.Concat(a, u, v, b) == z3.Concat(a, z3.Concat(u, v), b), 'lemma')
    # a lattice: every chain for itself
    def lc(I, lv): return call(I, 'PronunLatt::begin', lv, pred=lambda n: 'const' in n['type']['qualType']).c
    def cmerge(I, this, args, node):
        c = I.deref_lv(this); n = z3.Const('chain!%d' % I.newid(), Lab)
        I.fact(LG(n) == LG(c)); I.write(this, n)
        return this
    def lspec(I0, i, n):
        def cands(ctx):
            I = ctx.I; out = []
            gh = I.ghost.get('latt')
            if gh is None: return out
            l, v0 = gh; v = I.read(lc(I, l)); q = z3.Int('q!l')
            out.append(('size', eqi(v.n, v0.n)))
            for nm, ix in ctx.iters(lc(I, l)): out.append(('%s:range' % nm, z3.And(zi(ix) >= 0, zi(ix) <= v.n)))
            out.append(('languages', z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < v0.n), LG(v.at(q)) == LG(v0.at(q))), patterns=[v0.at(q)])))
            return out
        return dict(cands=cands, allow_container_mod=True)
    def lmerge(I):
        l = I.alloc(I.fresh('PronunLatt', 'l')); v0 = I.read(lc(I, l))
        I.ghost['latt'] = (l, v0)
        r = call(I, 'PronunLatt::mergeSingles', l, inline=True)
        v = I.read(lc(I, l)); j = z3.Int('j')
        I.ob('the lattice itself is returned', isinstance(r, LV) and r.same(l), 'post')
        I.ob('as many chains', eqi(v.n, v0.n), 'post')
        if I.branch(z3.And(j >= 0, j < v0.n)): I.ob('every chain expands as before', LG(v.at(j)) == LG(v0.at(j)), 'post')
    def whole(I):
        NL = z3.Function('nodeLattice', Z, Lab)
        g = I.alloc(I.fresh('FracDAG', 'g')); f0 = I.read(g)
        def nl(I, this, args, node):
            I.ob('the lattice of this graph is taken', isinstance(this, LV) and this.same(g), 'pre')
            return NL(zi(I.deref_lv(args[0])))
        I.hooks = dict(I.hooks); I.hooks['FracDAG::nodeLattice'] = nl
        r = I.deref_lv(call(I, 'FracDAG::lattice', g, inline=True))
        I.ob('the lattice expands like the chains from node 0', LG(r) == LG(NL(z3.IntVal(0))), 'post')
        I.ob('the graph is unchanged', I.read(g) is f0, 'frame')
    def setup(I): I.mmap = True; I.mmlite = True
    return [vc.Task('PronunChain::mergeSingles', merge, hooks=dict(words.HOOKS), fresh_hooks={'SylString': words.SylStr()}, loopspecs=Everywhere(spec)),
            vc.Task('lemma: joining neighbours', lem),
            vc.Task('PronunLatt::mergeSingles', lmerge, hooks={'PronunChain::mergeSingles': cmerge}, fresh_hooks={'PronunChain': words.lab}, loopspecs=Everywhere(lspec)),
            vc.Task('FracDAG::lattice', whole, hooks={'PronunLatt::mergeSingles': cmerge}, fresh_hooks={'PronunLatt': words.SylStr1(), 'PronunFrac': words.lab}, setup=setup)]

# --------------------------------------------------------- from graph to fractions
UN = z3.Function('un', Val, Lab)
def building():
    cq = lambda n: n['type']['qualType'].rstrip().endswith('const')
    def F(I, g, DD): return call(I, DD + '::outBegin', g, pred=cq).c
    def one(I, l):
        v = mk(I, z3.Unit(l)); I.fact(UN(v) == l)
        return v
    def exact(I, src, f, t, upto):
        """the edges are those of the source graph traversed so far, as fractions of one syllable"""
        a, b = z3.Ints('a!g b!g'); v = z3.Const('v!g', Val)
        M, gk, gi, Gp = src.total()
        l = UN(v)
        s = z3.And(v == MK(z3.Unit(l)), src.cntf(a, b, l) >= 1)
        if upto is not None: s = z3.And(s, Gp(a, src.Wf(a, b, l)) < zi(upto))
        s = z3.If(s, z3.IntVal(1), z3.IntVal(0))
        c1, c2 = f.cntf(a, b, v), t.cntf(b, a, v)
        return z3.ForAll([a, b, v], z3.And(c1 == s, c2 == s), patterns=[c1, c2])
    def spec(I0, i, n):
        def cands(ctx):
            I = ctx.I; out = []
            gh = I.ghost.get('build')
            if gh is None: return out
            S, src, l = gh
            for nm, lv in ctx.names0.items():
                try: v = I.read(lv)
                except Exception: continue
                if not (isinstance(v, StructV) and v.t == 'FracDAG'): continue
                g = c04.G(I, D, lv)
                for inm, it in its(ctx, S):
                    if it.key is not None: continue
                    M = src.total()[0]
                    out.append(('%s:range' % inm, z3.And(zi(it.i) >= 0, zi(it.i) <= M)))
                    out.append(('%s:%s:copied' % (nm, inm), exact(I, src, g.f, g.t, it.i)))
            return out
        return dict(cands=cands)
    class Everywhere(dict):
        def get(self, q, d=None): return spec
    def setup(I): I.mmap = True; I.quickms = 2000
    def build(I):
        src = I.alloc(I.fresh('PronunDAG', 'g'))
        S = F(I, src, 'DAG<Syl>'); T = call(I, 'DAG<Syl>::inBegin', src, pred=cq).c
        s, t = I.read(S), I.read(T)
        a, b = z3.Ints('a!g b!g'); l = z3.Const('l!g', Lab)
        c1, c2 = s.cntf(a, b, l), t.cntf(b, a, l)
        I.fact(z3.ForAll([a, b, l], z3.And(c1 <= 1, c1 == c2), patterns=[c1, c2]))
        I.fact(z3.ForAll([a, b, l], z3.Implies(c1 >= 1, z3.And(RK(b) >= 0, RK(b) < RK(a))), patterns=[c1]))
        I.fact(t.Nf(z3.IntVal(0)) == 0)
        I.fact(z3.ForAll([l], z3.And(CARD(MK(z3.Unit(l))) == 1, THE(MK(z3.Unit(l))) == z3.Unit(l), UN(MK(z3.Unit(l))) == l), patterns=[MK(z3.Unit(l))]))
        I.ghost['build'] = (S, s, l)
        made = []
        def mf(I, this, args, node):
            g = c04.G(I, D, this); made.append(this)
            I.ob('the edges are those of the graph, one syllable each', exact(I, s, g.f, g.t, None), 'pre')
            for nm, f in wellformed(I, g, True): I.ob('%s before merging' % nm, f, 'pre')
            I.write(g.F, g.f.havoc_(I, 'merged!%d' % I.newid())); I.write(g.T, g.t.havoc_(I, 'merged!%d' % I.newid()))
            I.ghost['merged'] = (I.read(g.F), I.read(g.T))
        I.hooks = dict(I.hooks); I.hooks['FracDAG::mergeFractions'] = mf
        r = call(I, 'PronunDAG::fracDAG', src, inline=True)
        if not isinstance(r, LV): r = I.alloc(r)
        g = c04.G(I, D, r)
        I.ob('the merged graph is returned', len(made) == 1 and (g.f, g.t) == I.ghost.get('merged'), 'post')
        I.ob('the source graph is unchanged', I.read(S) is s and I.read(T) is t, 'frame')
    def order(I):
        g = I.alloc(I.fresh('FracDAG', 'g')); gg = c04.G(I, D, g)
        for nm, f in wellformed(I, gg, True): I.fact(f)
        def step(single):
            def h(I, this, args, node):
                x = c04.G(I, D, this)
                for nm, f in wellformed(I, x, single): I.ob('%s before merging %s' % (nm, 'chains of nodes' if single else 'parallel edges'), f, 'pre')
                I.write(x.F, x.f.havoc_(I, 'm!%d' % I.newid())); I.write(x.T, x.t.havoc_(I, 'm!%d' % I.newid()))
                x.snap()
                for nm, f in wellformed(I, x, single): I.fact(f)
                I.ghost['last'] = (x.f, x.t)
            return h
        I.ghost['last'] = (gg.f, gg.t)
        I.hooks = dict(I.hooks); I.hooks['FracDAG::mergeSingles'] = step(True); I.hooks['FracDAG::mergeParallels'] = step(False)
        call(I, 'FracDAG::mergeFractions', g, inline=True)
        gg.snap()
        I.ob('nothing but the two merging steps touches the graph', (gg.f, gg.t) == I.ghost['last'], 'frame')
    o = dict(fresh_hooks=GFH, loopspecs=Everywhere(), setup=setup, contracts=OPS)
    return [vc.Task('PronunDAG::fracDAG', build, hooks=GH, **o), vc.Task('FracDAG::mergeFractions', order, hooks=GH, **o)]

def tasks(P, tier): return lemmas() + nodelattice() + seqops() + merging() + fractions() + chains() + building()
def bounded(B):
    B.drive('drv_lat', ['g', B.scale(3000, 100000, 20000), B.seed])
