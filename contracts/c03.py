"""C03: raw pronunciation codes round-trip."""
from contracts.spec import *
from contracts import render
from contracts.render import PStr, parts
BOUND = 'all 90,720 component combinations at positions 7 and -101, random sequences of up to 6 syllables and random positions'
ASSUMPTIONS = ['std::to_string / std::stoi are inverse on int', 'raw codes contain no comma (checked on the complete table)']

def is_desc(ps): return len(ps) in (1, 2) and 'string' in ps[0] and 'u16' not in ps[0] and not ps[0].startswith('Syl')
def syl_tasks(P):
    def rt(I):
        xs = render.valid(I, P)
        p = z3.Int('endPos')
        I.assume(z3.And(p >= -2**31, p < 2**31))
        a = render.mk_syl(I, xs, p)
        s = render.output(I, 'Raw', a)
        ps = parts(s)
        for i, x in enumerate(ps):
            if x[0] == 'c': I.ob('raw code: character %d is not a comma' % i, pnot(eqi(x[1], 44)), 'post')
        b = construct(I, 'Syl', is_desc, [I.alloc(PStr(ps)), 0])
        for n, x, y in zip(('initial', 'cluster', 'vowel', 'ending', 'tone'), acc(I, a), acc(I, b)):
            I.ob('raw code reads back: %s' % n, eqv(x, y), 'post')
        I.ob('raw code reads back: end position', eqv(call(I, 'Syl::endPos', a), call(I, 'Syl::endPos', b)), 'post')
        I.ob('raw code reads back: not a literal', pnot(I.truth(call(I, 'Syl::isLiteral', b))), 'post')
    def rt5(I):
        # a bare code (no position) takes the position given
        xs = render.valid(I, P)
        p = z3.Int('endPos')
        a = render.mk_syl(I, xs, p)
        s = render.output(I, 'Raw', a)
        ps = parts(s)[:5]
        b = construct(I, 'Syl', is_desc, [I.alloc(PStr(ps)), p])
        for n, x, y in zip(('initial', 'cluster', 'vowel', 'ending', 'tone'), acc(I, a), acc(I, b)):
            I.ob('bare raw code reads back: %s' % n, eqv(x, y), 'post')
        I.ob('bare raw code reads back: given end position', eqv(p, call(I, 'Syl::endPos', b)), 'post')
    def inj(P, I, t):
        T = render.table(P, I, 'Raw')
        by = {}; bad = {s: [] for s in SOUNDS}
        for k, v in T.items():
            o = by.setdefault(v, k)
            if o != k or not v or ',' in v:
                for x in (k, o): bad[x[0]].append('raw code %s of %s and %s' % (v, '/'.join(o), '/'.join(k)))
        for s in SOUNDS: render.record(I, 'raw code of initial %s identifies the syllable' % s, bad[s])
    return [vc.Task('Syl(desc) . RawSylOutput::output', rt), vc.Task('Syl(bare code)', rt5), vc.Task('RawSylOutput::output injective', None, custom=inj)]

# ---- sequences: an abstract text of m comma-separated pieces
st = z3.Function('start', z3.IntSort(), z3.IntSort())
NPOS = (1 << 64) - 1
class JStr:
    """pieces 0..m-1, piece k occupying [st(k), st(k+1)-1) with a separator (comma) after each but the last"""
    def __init__(self, m, sep=','): self.m, self.sep = m, sep
    def len(self): return st(self.m) - 1
    def piece(self, I, b):
        """index of the piece whose stretch (with its comma) contains position b"""
        pc = z3.Function('piece', z3.IntSort(), z3.IntSort())
        b = zi(b); k = pc(b)
        I.fact(z3.Implies(z3.And(b >= 0, b <= self.len()), z3.And(k >= 0, k < self.m, st(k) <= b, b < st(k + 1))))
        j = z3.Int('j!')
        # consequence of strict monotonicity
        I.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.m, b == st(j)), k == j), patterns=[st(j)]))
        return k
    def method_(self, I, base, name, args, n):
        a = [I.deref_lv(x) for x in args]
        if name in ('size', 'length'): return self.len()
        if name == 'empty': return eqi(self.len(), 0)
        if name == 'find' and isinstance(a[0], int) and a[0] == ord(self.sep) or (name == 'find' and isinstance(a[0], CStrV) and a[0].s == self.sep):
            b = zi(a[1] if len(a) > 1 else 0)
            k = self.piece(I, b)
            return z3.If(z3.And(b <= self.len(), k < self.m - 1), st(k + 1) - 1, z3.IntVal(NPOS))
        if name == 'substr':
            b = zi(a[0] if a else 0)
            I.ob('substr-range:%s' % I.where(), b <= self.len(), 'safety')
            n = a[1] if len(a) > 1 else None
            e = self.len() if n is None or (isinstance(n, int) and n >= 1 << 62) else z3.If(b + n < self.len(), b + n, self.len())
            return JSub(self, b, e)
        raise Unsupported('string method %s' % name)
    def stoi_(self, I): raise Unsupported('stoi')
class JSub:
    def __init__(self, j, b, e): self.j, self.b, self.e = j, b, e
    def method_(self, I, base, name, args, n):
        if name in ('size', 'length'): return self.e - self.b
        if name == 'empty': return self.e == self.b
        raise Unsupported('string method %s' % name)
    def stoi_(self, I): raise Unsupported('stoi')
from models import zi
def tagger(t):
  def tag_hook(I, this, args, node):
    a = args[0] if args else None
    v = I.read(a) if isinstance(a, LV) else a
    if isinstance(v, JSub):
        k = v.j.piece(I, v.b)
        bad = I.fresh('int', 'other')
        I.assume(bad < 0)
        I.write(this, StructV(t, {'$k': z3.If(z3.And(v.b == st(k), v.e == st(k + 1) - 1), k, bad)}))
        return None
    if isinstance(v, StructV) and '$k' in v.f:
        I.write(this, v); return None
    return NotImplemented
  return tag_hook
def fresh_tag(t): return lambda I, name, idx: StructV(t, {'$k': I.leaf(name + '.k', z3.IntSort(), idx)})
def lst(I, s):
    it = call(I, 'SylString::begin', s, pred=lambda n: 'const' in n['type']['qualType'])
    if isinstance(it, LV): it = I.read(it)
    return I.read(it.c)
def tags(l):
    if l.conc is not None: return pand([eqv(x.f['$k'], i) for i, x in enumerate(l.conc)])
    q = z3.Int('q!')
    return z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < l.n), l.at(q).f['$k'] == q))
def seq_loops(I0, i, n, lst=lambda ctx: lst(ctx.I, ctx.fr.this)):
    def cands(ctx):
        I = ctx.I
        l = lst(ctx)
        out = [('tags', tags(l)), ('n<m', l.n < z3.Int('m')), ('n<=m', l.n <= z3.Int('m'))]
        for nm, lv in ctx.fr.names.items():
            try: v = I.read(lv)
            except Exception: continue
            if isinstance(v, bool) or not (isinstance(v, int) or (isz(v) and z3.is_int(v))): continue
            out.append((str(nm) + '=start', zi(v) == st(zi(l.n))))
            out.append((str(nm) + '=end', zi(v) == st(zi(l.n) + 1) - 1))
            out.append((str(nm) + '=find', zi(v) == z3.If(zi(l.n) < z3.Int('m') - 1, st(zi(l.n) + 1) - 1, z3.IntVal(NPOS))))
        return out
    return dict(cands=cands, measure=lambda ctx: z3.Int('m') - lst(ctx).n)
def pieces(I, sep=','):
    m = z3.Int('m')
    I.assume(m >= 1)
    j, k = z3.Ints('j! k!')
    I.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), st(j) + 1 <= st(j + 1)), patterns=[st(j)]))
    I.fact(st(0) == 0); I.fact(st(m) < 2**62)
    I.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= m), z3.And(st(j) >= j, st(j) <= st(m))), patterns=[st(j)]))
    return JStr(m, sep)
def seq_tasks(P):
    def run(I):
        J = pieces(I)
        m = J.m
        s = construct(I, 'SylString', is_desc, [I.alloc(J)])
        l = lst(I, s)
        I.ob('one syllable per piece', eqv(l.n, m), 'post')
        I.ob('each syllable reads its own piece, in order', tags(l), 'post')
    return [vc.Task('SylString(desc)', run, hooks={'Syl::Syl': tagger('Syl')}, fresh_hooks={'Syl': fresh_tag('Syl')},
                    loopspecs={'SylString::SylString': seq_loops})]
def tasks(P, tier): return syl_tasks(P) + seq_tasks(P)
def bounded(B):
    B.drive('drv_core', ['raw', B.scale(20000, 300000), B.seed])
