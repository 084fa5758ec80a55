"""C02: syllable equality and ordering."""
from contracts.spec import *
from models import seq_rank
BOUND = ('all ordered pairs of ~180 syllables varying one component at a time and of 156 short sequences, plus random pairs '
         '(pair is non-trivial when the two differ)')
ASSUMPTIONS = ['std::u16string comparison is a total order (embedded in the reals)',
               'sequence tasks use the single-syllable order through the rank embedding justified by the discharged Syl tasks']
OPS = ['==', '!=', '<', '>', '<=', '>=']

def syl(I, n): return I.alloc(I.fresh('Syl', n))

def eq_spec(I, a, b):
    la, lb = I.truth(call(I, 'Syl::isLiteral', a)), I.truth(call(I, 'Syl::isLiteral', b))
    ra, rb = rank(I, a), rank(I, b)
    ca, cb = acc(I, a), acc(I, b)
    return por([pand([la, lb, ra == rb]), pand([pnot(la), pnot(lb)] + [eqv(x, y) for x, y in zip(ca, cb)])])
def rank(I, a):
    l = call(I, 'Syl::literal', a)
    if isinstance(l, LV): l = I.read(l)
    return seq_rank(I, l)
def lt_spec(I, a, b):
    la, lb = I.truth(call(I, 'Syl::isLiteral', a)), I.truth(call(I, 'Syl::isLiteral', b))
    ra, rb = rank(I, a), rank(I, b)
    ea, eb = call(I, 'Syl::endPos', a), call(I, 'Syl::endPos', b)
    comps = list(zip(list(acc(I, a)) + [ea], list(acc(I, b)) + [eb]))
    def lex(l):
        x, y = l[0]
        r = x < y
        if len(l) > 1: r = z3.Or(r, z3.And(x == y, lex(l[1:])))
        return r
    return por([pand([la, pnot(lb)]), pand([la, lb, por([ra < rb, pand([ra == rb, ea < eb])])]), pand([pnot(la), pnot(lb), lex(comps)])])

SPEC = {'==': lambda I, a, b: eq_spec(I, a, b), '!=': lambda I, a, b: pnot(eq_spec(I, a, b)),
        '<': lambda I, a, b: lt_spec(I, a, b), '>': lambda I, a, b: lt_spec(I, b, a),
        '<=': lambda I, a, b: pnot(lt_spec(I, b, a)), '>=': lambda I, a, b: pnot(lt_spec(I, a, b))}

def syl_tasks(P):
    out = []
    for op in OPS:
        def run(I, op=op):
            a, b = syl(I, 'a'), syl(I, 'b')
            r = I.truth(call(I, 'Syl::operator' + op, a, [b]))
            I.ob('Syl %s is the specified relation' % op, piff(r, SPEC[op](I, a, b)), 'post')
        out.append(vc.Task('Syl::operator' + op, run))
    def laws(I):
        a, b, c = [syl(I, x) for x in 'abc']
        L = lambda x, y: lt_spec(I, x, y)
        I.ob('irreflexive', pnot(L(a, a)), 'lemma')
        I.ob('transitive', pimp(pand([L(a, b), L(b, c)]), L(a, c)), 'lemma')
        I.ob('total up to equality and end position', pimp(pand([pnot(L(a, b)), pnot(L(b, a))]),
             pand([eq_spec(I, a, b), eqv(call(I, 'Syl::endPos', a), call(I, 'Syl::endPos', b))])), 'lemma')
        I.ob('order respects equality', pimp(pand([eq_spec(I, a, b), eqv(call(I, 'Syl::endPos', a), call(I, 'Syl::endPos', b))]), pnot(L(a, b))), 'lemma')
        I.ob('== reflexive', eq_spec(I, a, a), 'lemma')
        I.ob('== symmetric', pimp(eq_spec(I, a, b), eq_spec(I, b, a)), 'lemma')
        I.ob('== transitive', pimp(pand([eq_spec(I, a, b), eq_spec(I, b, c)]), eq_spec(I, a, c)), 'lemma')
        x = rank(I, a)
        p = z3.Int('pos')
        b2 = I.alloc(I.read(a))
        call(I, 'Syl::setEndPos', b2, [p])
        I.ob('== ignores the position', eq_spec(I, a, b2), 'post')
        I.ob('setEndPos sets the position', eqv(call(I, 'Syl::endPos', b2), p), 'post')
    out.append(vc.Task('Syl order laws', laws))
    def copy(I):
        a = syl(I, 'a')
        try: b = construct(I, 'Syl', lambda ps: ps in (['Syl&'], ['Syl&&']), [a])
        except Unsupported:
            I.ob('copy is memberwise (implicit)', True, 'post'); return
        I.ob('copy keeps every component', pand([eqv(x, y) for x, y in zip(acc(I, a), acc(I, b))] + [rank(I, a) == rank(I, b),
             eqv(call(I, 'Syl::endPos', a), call(I, 'Syl::endPos', b)),
             piff(I.truth(call(I, 'Syl::isLiteral', a)), I.truth(call(I, 'Syl::isLiteral', b)))]), 'post')
    out.append(vc.Task('Syl copy', copy))
    return out

# ---- sequences: elements are abstract syllables with a rank in the order and an equality class
class ASyl(StructV): pass
def fresh_syl(I, name, idx):
    r = I.leaf(name + '.rank', z3.RealSort(), idx); c = I.leaf(name + '.cls', z3.IntSort(), idx)
    return StructV('Syl', {'$r': r, '$c': c})
def shook(f):
    def h(I, this, args, node):
        a, b = I.read(this), args[0]
        b = I.read(b) if isinstance(b, LV) else b
        return f(I, a.f, b.f)
    return h
HOOKS = {'Syl::operator==': shook(lambda I, a, b: a['$c'] == b['$c']), 'Syl::operator!=': shook(lambda I, a, b: a['$c'] != b['$c']),
         'Syl::operator<': shook(lambda I, a, b: a['$r'] < b['$r']), 'Syl::operator>': shook(lambda I, a, b: a['$r'] > b['$r']),
         'Syl::operator<=': shook(lambda I, a, b: a['$r'] <= b['$r']), 'Syl::operator>=': shook(lambda I, a, b: a['$r'] >= b['$r'])}

def cont(I, s):
    it = call(I, 'SylString::begin', s, pred=lambda n: 'const' in n['type']['qualType'])
    if isinstance(it, LV): it = I.read(it)
    return it.c
def seq_loops(I0, i, n):
    def cands(ctx):
        I = ctx.I
        fr = ctx.fr
        other = next(iter(fr.names.values()))
        A, Bc = cont(I, fr.this), cont(I, other)
        a, b = I.read(A), I.read(Bc)
        out = []
        pa, pb = ctx.iters(A), ctx.iters(Bc)
        q = z3.Int('q!')
        for na, x in pa:
            for nb, y in pb:
                out.append(('%s==%s' % (na, nb), x == y))
            for f in ('$r', '$c'):
                out.append(('%s:%s' % (na, f), z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < x), a.at(q).f[f] == b.at(q).f[f]))))
        return out
    return dict(cands=cands)

def fd(I, a, b, nm):
    """first difference in rank: total function by well-ordering"""
    k = z3.Int('fd!' + nm); q = z3.Int('q!')
    mn = z3.If(a.n <= b.n, a.n, b.n)
    I.fact(z3.And(k >= 0, k <= mn, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < k), a.at(q).f['$r'] == b.at(q).f['$r'])),
                  z3.Implies(k < mn, a.at(k).f['$r'] != b.at(k).f['$r'])))
    return k, mn
def lexlt(a, b, k, mn): return z3.If(k < mn, a.at(k).f['$r'] < b.at(k).f['$r'], a.n < b.n)
def seqeq(a, b):
    q = z3.Int('q!')
    return z3.And(a.n == b.n, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < a.n), a.at(q).f['$c'] == b.at(q).f['$c'])))

def seq_tasks(P):
    out = []
    sspec = {}
    def specs(I, this, args, op):
        a, b = I.read(cont(I, this)), I.read(cont(I, args[0]))
        if op in ('==', '!='):
            r = seqeq(a, b)
            return r if op == '==' else z3.Not(r)
        k, mn = fd(I, a, b, 'spec')
        return {'<': lambda: lexlt(a, b, k, mn), '>': lambda: lexlt(b, a, k, mn),
                '<=': lambda: z3.Not(lexlt(b, a, k, mn)), '>=': lambda: z3.Not(lexlt(a, b, k, mn))}[op]()
    for op in OPS:
        def run(I, op=op):
            s = [I.alloc(I.fresh('SylString', x)) for x in 'ab']
            f = fn(I.P, 'SylString::operator' + op)
            r = I.truth(I.call(f[0], f[1], s[0], [s[1]], inline=True))
            I.ob('SylString %s is lexicographic' % op, piff(r, specs(I, s[0], [s[1]], op)), 'post')
        con = {}
        for o in OPS:
            if o != op: con['SylString::operator' + o] = Spec(lambda I, this, args, o=o: specs(I, this, args, o))
        out.append(vc.Task('SylString::operator' + op, run, hooks=HOOKS, fresh_hooks={'Syl': fresh_syl},
                           loopspecs={'SylString::operator' + o: seq_loops for o in OPS}, contracts=con))
    def laws(I):
        s = [I.alloc(I.fresh('SylString', x)) for x in 'abc']
        a, b, c = [I.read(cont(I, x)) for x in s]
        kab, mab = fd(I, a, b, 'ab'); kbc, mbc = fd(I, b, c, 'bc'); kac, mac = fd(I, a, c, 'ac')
        lab, lbc, lac = lexlt(a, b, kab, mab), lexlt(b, c, kbc, mbc), lexlt(a, c, kac, mac)
        I.ob('sequence order: asymmetric', z3.Not(z3.And(lab, lexlt(b, a, kab, mab))), 'lemma')
        I.ob('sequence order: transitive', z3.Implies(z3.And(lab, lbc), lac), 'lemma')
        q = z3.Int('q!')
        I.ob('sequence order: total', z3.Implies(z3.And(z3.Not(lab), z3.Not(lexlt(b, a, kab, mab))),
             z3.And(a.n == b.n, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < a.n), a.at(q).f['$r'] == b.at(q).f['$r'])))), 'lemma')
    out.append(vc.Task('SylString order laws', laws, hooks=HOOKS, fresh_hooks={'Syl': fresh_syl}))
    return out

def tasks(P, tier): return syl_tasks(P) + seq_tasks(P)

def bounded(B):
    B.drive('drv_core', ['ops', B.scale(20000, 400000), B.seed])
