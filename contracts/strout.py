"""Common ground of C15 and C16: output strings built by loops.  The text
written for a list is specified as a join J(k) over its first k elements,
J(0)='' and J(k+1)=J(k)+sep(k)+item(k); loops are cut by candidate invariants
relating every string variable to the joins of the list being walked."""
from contracts.spec import *
from models import zi
SS = z3.StringSort()
Render = None

def leafterms(I, v):
    """components of a syllable value as terms"""
    out = []
    for k in sorted(v.f):
        x = v.f[k]
        if isinstance(x, SeqV):
            b, st = x.key if x.key is not None else (-1, 0)
            out += [zi(b), zi(st), zi(x.n)]
        elif isinstance(x, bool): out.append(z3.IntVal(int(x)))
        elif isinstance(x, int): out.append(z3.IntVal(x))
        elif isz(x): out.append(x if z3.is_int(x) else toint(x))
        else: raise Unsupported('syllable component')
    return out
def R(I, v):
    """text of a syllable in the chosen notation: an arbitrary function of the syllable"""
    t = leafterms(I, v)
    return z3.Function('render', *([z3.IntSort()] * len(t) + [SS]))(*t)
def render_hook(I, this, args, node):
    v = I.deref_lv(args[0])
    if not isinstance(v, StructV) or v.t != 'Syl': return NotImplemented
    return R(I, v)

class Join:
    def __init__(self, I, name, idx, item, sep, start=0, flags=()):
        self.I, self.name, self.idx, self.item, self.sep, self.start, self.flags = I, name, [zi(x) for x in idx], item, sep, start, flags
        self.f = z3.Function('J!' + name, *([z3.IntSort()] * (len(idx) + 1) + [SS]))
    def raw(self, k): return self.f(*(self.idx + [zi(k)]))
    def at(self, k):
        I = self.I
        k = z3.simplify(zi(k))
        t = self.raw(k)
        done = I.ghost.setdefault('unfolded', set())
        key = t.sexpr()
        if key not in done:
            done.add(key)
            p = z3.simplify(k - 1)
            I.fact(z3.Implies(k <= self.start, t == z3.StringVal('')))
            if not (z3.is_int_value(k) and k.as_long() <= self.start):
                I.fact(z3.Implies(k > self.start, t == z3.Concat(self.raw(p), z3.Concat(zstr(self.sep(p)), zstr(self.item(p))))))
        return t

def conts(ctx):
    """(container lvalue, [(iterator name, position)])"""
    out = []
    def put(nm, c, i):
        for c2, l in out:
            if c2.same(c): l.append((nm, i)); return
        out.append((c, [(nm, i)]))
    for nm, lv in list(ctx.fr.names.items()):
        try: v = ctx.I.read(lv)
        except Exception: continue
        if isinstance(v, IterV) and v.key is None: put(nm, v.c, v.i)
    if getattr(ctx, 'cont', None) is not None: put('idx', ctx.cont, ctx.idx)
    return out

def spec(I0, i, n):
    def cands(ctx):
        I = ctx.I; out = []
        reg = I.ghost.get('joins')
        if reg is None: return out
        strs, bls = [], []
        for nm, lv in list(ctx.fr.names.items()):
            try: v = I.read(lv); e = ctx.at_entry(lv)
            except Exception: continue
            if isinstance(v, str) or (isz(v) and z3.is_string(v)): strs.append((nm, v, e))
            elif isinstance(v, bool) or (isz(v) and z3.is_bool(v)): bls.append((nm, v))
        for c, its in conts(ctx):
            for a, (na, x) in enumerate(its):
                for nb, y in its[a + 1:]:
                    for d in (-1, 0, 1): out.append(('%s==%s%+d' % (na, nb, d), zi(x) == zi(y) + d))
            for jn, j in enumerate(reg(I, c)):
                for inm, x in its:
                    for sn, s, e in strs:
                        out.append(('%s:%s:%d' % (sn, inm, jn), eqv(s, scat(e, j.at(x)))))
                        out.append(('%s:%s:%d:after' % (sn, inm, jn), eqv(s, scat(e, z3.If(zi(x) == 0, z3.StringVal(''), j.at(x))))))
                    for fn_, fl in enumerate(j.flags):
                        for bn, b in bls: out.append(('%s:%s:%d:flag%d' % (bn, inm, jn, fn_), piff(b, fl(zi(x)))))
            for inm, x in its:
                for sn, s, e in strs:
                    for lit in (',', '"', '-', ' '):
                        out.append(('%s:%s:sep%s' % (sn, inm, lit), eqv(s, z3.If(zi(x) == 0, zstr(e), z3.StringVal(lit)))))
                for bn, b in bls:
                    out.append(('%s:%s:first' % (bn, inm), piff(b, zi(x) == 0)))
                    out.append(('%s:%s:notfirst' % (bn, inm), piff(b, zi(x) != 0)))
        for sn, s, e in strs: out.append(('%s:same' % sn, eqv(s, e)))
        return out
    return dict(cands=cands)
class Everywhere(dict):
    """the same loop treatment in every function"""
    def get(self, q, d=None): return spec

def ptr_hook(I, name, idx):
    return PtrV(I.alloc(OpaqueV('renderer')))
UPTR = ['std::unique_ptr<ISylOutput>', 'unique_ptr<ISylOutput>', 'std::unique_ptr<ISylOutput, std::default_delete<ISylOutput>>']
FH = {t: ptr_hook for t in UPTR}
AStr = z3.DeclareSort('SylString')
def abs_string(I, name, idx): return I.leaf(name, AStr, idx)
def pkind(node):
    ps = [interp.ctype(x) for x in node.get('inner', []) if x['kind'] == 'ParmVarDecl']
    if len(ps) != 1: return '?'
    p = interp.strip_type(ps[0])
    for k in ('PronunDAG', 'PronunLatt', 'SylString', 'Syl'):
        if p == k: return k
    return 'list' if 'list<' in p else '?'
def ov(k): return lambda node: pkind(node) == k

def dag_task(P, cls, out):
    """output(PronunDAG) is output(the flat list of the graph)"""
    def run(I):
        L = [None]
        def listing(I, this, args, node):
            I.ob('%s lists the paths from the start node' % cls, eqv(toint(I.deref_lv(args[1])), 0), 'pre')
            if I.deref_lv(args[0]) is not g: I.ob('%s lists the given graph' % cls, False, 'pre')
            L[0] = I.fresh('std::list<SylString>', 'listing')
            return L[0]
        def outp(I, this, args, node):
            if pkind(node) != 'list': return NotImplemented
            v = I.deref_lv(args[0])
            I.ob('%s writes the whole listing' % cls, isinstance(v, SeqV) and L[0] is not None and v.n is L[0].n and v.atf is L[0].atf, 'pre')
            return z3.String('text of the listing')
        I.hooks = dict(I.hooks); I.hooks['IOutput::DAGSylStrings'] = listing; I.hooks[cls + '::output'] = outp
        this = I.alloc(I.fresh(cls, 'this')); g = I.fresh('PronunDAG', 'g')
        r = call(I, cls + '::output', this, [I.alloc(g)], pred=ov('PronunDAG'), inline=True)
        I.ob('%s::output(graph) is the output of its flat list' % cls, eqv(r, z3.String('text of the listing')), 'post')
    fh = dict(FH); fh['SylString'] = abs_string; fh['PronunDAG'] = lambda I, name, idx: OpaqueV('PronunDAG', {})
    out.append(vc.Task(cls + '::output(PronunDAG)', run, fresh_hooks=fh))
