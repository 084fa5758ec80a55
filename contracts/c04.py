"""C04: the graph is an edge set whose two indexes agree."""
from contracts.spec import *
BOUND = 'random histories of up to 27 operations on graphs of up to 8 nodes, syllable and fraction labels'
EXTRA_TU = ('inst_dag.cxx',)
ASSUMPTIONS = ['std::multimap: the C++ standard\'s description (engine/multimap.py)',
               'operator== of the edge labels is an equivalence relation (labels are represented by their class; for syllables this is discharged under C02)',
               'the argument of unionDAG is a graph distinct from the object, or the object itself']
LABELS = ('Syl', 'PronunFrac')
Val = z3.DeclareSort('Label')

def fresh_val(I, name, idx): return I.leaf(name, Val, idx)
def veq(neg):
    def h(I, this, args, node):
        a, b = I.deref_lv(this), I.deref_lv(args[0])
        return a != b if neg else a == b
    return h

def setup(I): I.mmap = True; I.quickms = 500

class G:
    """the two indexes of a graph, found through its public traversal"""
    def __init__(self, I, D, g):
        self.I, self.D, self.g = I, D, g
        cq = lambda n: n['type']['qualType'].rstrip().endswith('const')
        self.F = call(I, D + '::outBegin', g, pred=cq).c
        self.T = call(I, D + '::inBegin', g, pred=cq).c
        if self.F.same(self.T): raise Unsupported('one index')
        self.snap()
    def snap(self): self.f, self.t = self.I.read(self.F), self.I.read(self.T)
    def inF(self, a, b, v): return self.f.cnt(a, [zi(b), v])
    def inT(self, a, b, v): return self.t.cnt(b, [zi(a), v])
    def inv(self):
        a, b = z3.Ints('a!g b!g'); v = z3.Const('v!g', Val)
        F, T = self.f.cntf(a, b, v), self.t.cntf(b, a, v)
        self.I.fact(z3.ForAll([a, b, v], z3.And(F <= 1, F == T), patterns=[F, T]))
    def any(self, a, b):
        """some edge a -> b"""
        nm = self.f.name
        A = z3.Function('any!' + nm, z3.IntSort(), z3.IntSort(), z3.BoolSort()); S = z3.Function('some!' + nm, z3.IntSort(), z3.IntSort(), Val)
        x, y = z3.Ints('a!g b!g'); v = z3.Const('v!g', Val)
        self.I.fact(z3.ForAll([x, y, v], z3.Implies(self.f.cntf(x, y, v) >= 1, A(x, y)), patterns=[self.f.cntf(x, y, v)]))
        self.I.fact(z3.ForAll([x, y], z3.Implies(A(x, y), self.f.cntf(x, y, S(x, y)) >= 1), patterns=[A(x, y)]))
        return A(zi(a), zi(b))
def zi(x): return z3.IntVal(x) if isinstance(x, int) else x
def cst(I, nm): return z3.Int(nm), z3.Int(nm + "'"), z3.Const(nm + 'v', Val)
def post(I, g, spec, what):
    """after the operation the edges are those of spec and the indexes agree"""
    g.snap()
    a, b, v = cst(I, 'e!%d' % I.newid())
    s = zb(spec(a, b, v))
    I.ob('%s: forward index holds exactly the specified edges, once each' % what, g.inF(a, b, v) == z3.If(s, z3.IntVal(1), z3.IntVal(0)), 'post')
    I.ob('%s: backward index holds exactly the specified edges, once each' % what, g.inT(a, b, v) == z3.If(s, z3.IntVal(1), z3.IntVal(0)), 'post')

class AddEdge:
    """set semantics of addEdge, as seen by callers"""
    loops = None
    def __init__(self, D): self.D = D
    def applies(self, node): return True
    def apply(self, I, node, tu, this, args):
        a, b, v = [I.deref_lv(x) for x in args]
        g = G(I, self.D, this)
        o = I.ghost.get('other')
        if o is not None and this.same(o):
            # uniting a graph with itself: an insertion here would disturb the traversal
            I.ob('unionDAG with itself adds nothing', g.inF(a, b, v) >= 1, 'pre')
            return False
        if I.branch(g.inF(a, b, v) >= 1): return False
        I.write(g.F, g.f.inserted(I, a, [zi(b), v])); I.write(g.T, g.t.inserted(I, b, [zi(a), v]))
        return True
class IsEdge:
    loops = None
    def __init__(self, D): self.D = D
    def applies(self, node): return True
    def apply(self, I, node, tu, this, args):
        a, b, v = [I.deref_lv(x) for x in args]
        return G(I, self.D, this).inF(a, b, v) >= 1

def loops(D):
    def spec(I0, i, n):
        def cands(ctx):
            I = ctx.I; out = []
            gh = I.ghost.get('edge')
            if gh is None: return out
            g, a, b, v = gh
            f0, t0 = g.f, g.t
            j, k, m = z3.Ints('j!l k!l m!l'); w = z3.Const('w!l', Val)
            for C, me, far, nm, z in ((g.F, a, b, 'F', f0), (g.T, b, a, 'T', t0)):
                cur = I.read(C)
                for inm, it in its(ctx, C):
                    if it.key is None: continue
                    e = cur.el(it.key, j)
                    inr = z3.And(j >= 0, j < zi(it.i))
                    for tn, key in (('me', me), ('far', far)):
                        out.append(('%s:%s:key=%s' % (nm, inm, tn), it.key == key))
                    if v is not None: out.append(('%s:%s:unseen' % (nm, inm), z3.ForAll([j], z3.Implies(inr, z3.Not(z3.And(e[0] == far, e[1] == v))), patterns=e)))
                    out.append(('%s:%s:unseen-target' % (nm, inm), z3.ForAll([j], z3.Implies(inr, e[0] != far), patterns=e)))
                    out.append(('%s:%s:in-range' % (nm, inm), z3.And(zi(it.i) >= 0, zi(it.i) <= cur.N(it.key))))
                    out.append(('%s:%s:at-end' % (nm, inm), zi(it.i) == cur.N(it.key)))
                if cur is not z:
                    c, c0 = cur.cntf(k, m, w), z.cntf(k, m, w)
                    out.append(('%s:only-those' % nm, z3.ForAll([k, m, w], z3.And(c <= c0, z3.Implies(z3.Not(z3.And(k == me, m == far)), c == c0)), patterns=[c])))
                    same = z3.ForAll([k, m, w], c == c0, patterns=[c])
                    out.append(('%s:same' % nm, same))
                    for bn, bv in bools(ctx):
                        out.append(('%s:%s=>any' % (nm, bn), pimp(bv, g.any(a, b))))
                        out.append(('%s:!%s=>same' % (nm, bn), pimp(pnot(bv), same)))
                        out.append(('%s:%s=>any,F' % (nm, bn), piff(bv, g.any(a, b))))
            for bn, bv in bools(ctx):
                out.append(('%s=>any' % bn, pimp(bv, g.any(a, b))))
                out.append(('%s<=>any' % bn, piff(bv, g.any(a, b))))
                if v is not None:
                    out.append(('%s=>edge' % bn, pimp(bv, g.inF(a, b, v) >= 1)))
                    out.append(('%s<=>edge' % bn, piff(bv, g.inF(a, b, v) >= 1)))
            return out
        return dict(cands=cands)
    return spec
def its(ctx, C):
    out = []
    for nm, lv in ctx.fr.names.items():
        try: v = ctx.I.read(lv)
        except Exception: continue
        if isinstance(v, IterV) and v.c.same(C): out.append((nm, v))
        elif isinstance(v, StructV):
            for k, x in v.f.items():
                if isinstance(x, IterV) and x.c.same(C): out.append((nm + '.' + k, x))
    return out
def bools(ctx):
    out = []
    for nm, lv in ctx.fr.names.items():
        try: v = ctx.I.read(lv)
        except Exception: continue
        if isinstance(v, bool) or (isz(v) and z3.is_bool(v)): out.append((nm, v))
    return out

def union_loops(D):
    def spec(I0, i, n):
        def cands(ctx):
            I = ctx.I; out = []
            gh = I.ghost.get('union')
            if gh is None: return out
            g, o, f0 = gh
            a, b = z3.Ints('a!g b!g'); v = z3.Const('v!g', Val)
            fr_, to_ = I.read(g.F), I.read(g.T)
            for C, oc, nm, first in ((o.F, o.f, 'F', True), (o.T, o.t, 'T', False)):
                M, gk, gi, Gp = oc.total()
                for inm, it in its(ctx, C):
                    if it.key is not None: continue
                    out.append(('%s:%s:in-range' % (nm, inm), z3.And(zi(it.i) >= 0, zi(it.i) <= M)))
                    w = oc.Wf(a, b, v) if first else oc.Wf(b, a, v)
                    pos = Gp(a, w) if first else Gp(b, w)
                    s = z3.If(z3.Or(f0.cntf(a, b, v) >= 1, z3.And(o.inF(a, b, v) >= 1, pos < zi(it.i))), z3.IntVal(1), z3.IntVal(0))
                    c1, c2 = fr_.cntf(a, b, v), to_.cntf(b, a, v)
                    out.append(('%s:%s:united so far' % (nm, inm), z3.ForAll([a, b, v], z3.And(c1 == s, c2 == s), patterns=[c1, c2])))
            return out
        r = dict(cands=cands)
        o = I0.ghost.get('other')
        if o is not None:
            r['modifies'] = lambda I, lvs: [l for l in lvs if l.loc != o.loc]
            r['inv'] = lambda ctx: [('traversed graph untouched', ctx.I.read(I0.ghost['union'][0].F) is I0.ghost['union'][2])]
        return r
    return spec

def tasks(P, tier):
    out = []
    for T in LABELS:
        D = 'DAG<%s>' % T
        opts = dict(hooks={T + '::operator==': veq(False), T + '::operator!=': veq(True)}, fresh_hooks={T: fresh_val},
                    setup=setup)
        M = ['isEdgeExist', 'addEdge', 'removeEdge', 'removeDirectEdges', 'outDegree', 'inDegree', 'outEdges', 'inEdges']
        ls = {D + '::' + m: loops(D) for m in M}
        def prep(I, D=D, names='abv'):
            g = I.alloc(I.fresh(D, 'g'))
            gg = G(I, D, g); gg.inv()
            a, b, v = z3.Int('from'), z3.Int('to'), z3.Const('val', Val)
            pre = G(I, D, g)
            I.ghost['edge'] = (pre, a, b, v)
            return g, gg, pre, a, b, v
        cn = {D + '::isEdgeExist': IsEdge(D)}
        def q(I, D=D):
            g, gg, pre, a, b, v = prep(I, D)
            r = I.truth(call(I, D + '::isEdgeExist', g, [a, b, I.alloc(v)], inline=True))
            I.ob('isEdgeExist tells whether the edge is present', piff(r, pre.inF(a, b, v) >= 1), 'post')
            post(I, gg, lambda x, y, w: pre.inF(x, y, w) >= 1, 'isEdgeExist')
        def ae(I, D=D):
            g, gg, pre, a, b, v = prep(I, D)
            r = I.truth(call(I, D + '::addEdge', g, [a, b, I.alloc(v)], inline=True))
            I.ob('addEdge reports whether the edge is new', piff(r, pre.inF(a, b, v) == 0), 'post')
            post(I, gg, lambda x, y, w: z3.Or(pre.inF(x, y, w) >= 1, z3.And(x == a, y == b, w == v)), 'addEdge')
        def re_(I, D=D):
            g, gg, pre, a, b, v = prep(I, D)
            r = I.truth(call(I, D + '::removeEdge', g, [a, b, v], inline=True))
            I.ob('removeEdge reports whether the edge was there', piff(r, pre.inF(a, b, v) >= 1), 'post')
            post(I, gg, lambda x, y, w: z3.And(pre.inF(x, y, w) >= 1, z3.Not(z3.And(x == a, y == b, w == v))), 'removeEdge')
        def rd(I, D=D):
            g, gg, pre, a, b, v = prep(I, D)
            I.ghost['edge'] = (pre, a, b, None)
            r = I.truth(call(I, D + '::removeDirectEdges', g, [a, b], inline=True))
            I.ob('removeDirectEdges reports whether an edge was there', piff(r, pre.any(a, b)), 'post')
            post(I, gg, lambda x, y, w: z3.And(pre.inF(x, y, w) >= 1, z3.Not(z3.And(x == a, y == b))), 'removeDirectEdges')
        def un(I, D=D, alias=False):
            g, gg, pre, a, b, v = prep(I, D)
            if alias: o = g; og = pre
            else:
                o = I.alloc(I.fresh(D, 'o')); og = G(I, D, o); og.inv()
            I.ghost['edge'] = None; I.ghost['union'] = (gg, og, pre.f)
            if alias: I.ghost['other'] = o
            call(I, D + '::unionDAG', g, [o], inline=True)
            post(I, gg, lambda x, y, w: z3.Or(pre.inF(x, y, w) >= 1, og.inF(x, y, w) >= 1), 'unionDAG' + (' with itself' if alias else ''))
            if not alias:
                f1, t1 = I.read(og.F), I.read(og.T)
                I.ob('unionDAG leaves its argument alone', f1 is og.f and t1 is og.t, 'frame')
        def dg(I, D=D):
            g, gg, pre, a, b, v = prep(I, D)
            k = z3.Int('k')
            I.ob('outDegree counts the edges leaving the node', call(I, D + '::outDegree', g, [k], inline=True) == pre.f.N(k), 'post')
            I.ob('inDegree counts the edges entering the node', call(I, D + '::inDegree', g, [k], inline=True) == pre.t.N(k), 'post')
            for m, C, c in (('outEdges', pre.F, pre.f), ('inEdges', pre.T, pre.t)):
                r = I.deref_lv(call(I, D + '::' + m, g, [k], inline=True))
                x, y = r.f['first'], r.f['second']
                ok = x.c.same(C) and y.c.same(C) and x.key is not None and y.key is not None
                I.ob('%s is the range of the node\'s edges' % m, pand([x.key == k, y.key == k, eqi(x.i, 0), eqi(y.i, c.N(k))]) if ok else False, 'post')
            for cq in (True, False):
                p = lambda n: n['type']['qualType'].rstrip().endswith('const') == cq
                for m, C, z in (('outBegin', pre.F, 0), ('outEnd', pre.F, pre.f.total()[0]), ('inBegin', pre.T, 0), ('inEnd', pre.T, pre.t.total()[0])):
                    r = I.deref_lv(call(I, D + '::' + m, g, pred=p))
                    I.ob('%s%s bounds the whole traversal' % (m, ' const' if cq else ''), r.c.same(C) and r.key is None and eqi(r.i, z), 'post')
            post(I, gg, lambda x, y, w: pre.inF(x, y, w) >= 1, 'queries')
        def cp(I, D=D):
            g, gg, pre, a, b, v = prep(I, D)
            for nm, pr in (('copy', lambda ps: ps == [D.replace(' ', '') + '&']), ('move', lambda ps: ps == [D.replace(' ', '') + '&&'])):
                h = construct(I, D, pr, [I.alloc(I.read(g))])
                post(I, G(I, D, h), lambda x, y, w: pre.inF(x, y, w) >= 1, nm + ' construction')
            h = I.alloc(I.fresh(D, 'h'))
            call(I, D + '::operator=', h, [g], pred=lambda n: '&&' not in n['type']['qualType'])
            post(I, G(I, D, h), lambda x, y, w: pre.inF(x, y, w) >= 1, 'assignment')
            post(I, gg, lambda x, y, w: pre.inF(x, y, w) >= 1, 'copied graph')
            e = construct(I, D, lambda ps: ps == [], [])
            post(I, G(I, D, e), lambda x, y, w: False, 'empty graph')
        mk = lambda nm, run, con={}, l=None: out.append(vc.Task('%s::%s' % (D, nm), run, contracts=con, loopspecs=l or ls, **opts))
        mk('isEdgeExist', q); mk('addEdge', ae, cn); mk('removeEdge', re_, cn); mk('removeDirectEdges', rd, cn)
        ca = {D + '::addEdge': AddEdge(D), D + '::isEdgeExist': IsEdge(D)}
        lu = {D + '::unionDAG': union_loops(D)}
        mk('unionDAG', un, ca, lu); mk('unionDAG with itself', lambda I, un=un: un(I, alias=True), ca, lu)
        mk('queries', dg); mk('construction', cp)
    return out

def bounded(B):
    B.drive('drv_dag', [B.scale(800, 20000, 4000), B.seed])
