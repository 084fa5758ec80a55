"""C22: Abbreviations are read letter by letter."""
from contracts.c20 import *
from contracts import c20
BOUND = 'every consonant alone, sampled abbreviations of one to four letters, one to three of them, alone and before sampled regular syllables'
ASSUMPTIONS = c20.ASSUMPTIONS + ['regular syllables after the abbreviations are read as written (discharged by C20; the rule functions look at no letter before the syllable)']
K = z3.Int('abbreviations.end')
class Abbrs(Whole):
    """the text is a sequence of abbreviations, up to K, and of regular syllables"""
    def text(self, I):
        w = Env.text(self, I)
        t = I.read(w); at0 = t.at; seen = set()
        I.fact(z3.And(K >= 0, K <= N))
        def at(j):
            v = at0(j)
            if v.get_id() not in seen:
                seen.add(v.get_id()); I.fact(z3.If(zi(j) >= K, plain(v), z3.Or(iscons(v), v == 46)))
            return v
        return I.alloc(SeqV(t.et, t.n, at, None, t.key, t.kind))
    def unit(self, k, n, stop):
        """n letters and a full stop; none: one letter at the end of the text"""
        if not n: return z3.And(k + 1 == stop, iscons(TXT(k)))
        return z3.And([k + n < stop] + [iscons(TXT(z3.simplify(k + i))) for i in range(n)] + [TXT(z3.simplify(k + n)) == 46])
    def begins(self, k): return z3.Or(k == 0, TXT(z3.simplify(k - 1)) == 46)
    def layout(self, I, k):
        I.assume(z3.Implies(z3.And(BND(k), k < K), z3.And(k >= 0, NEXT(k) <= K, BND(NEXT(k)), self.begins(k), z3.Or([z3.And(NEXT(k) == k + n + 1, self.unit(k, n, N)) for n in range(5)]))))
        I.assume(z3.Implies(z3.And(BND(k), k >= K, k < N), z3.And(NEXT(k) >= k + 2, NEXT(k) <= N, BND(NEXT(k)), parsemain.sylstart(TXT(k)))))
    def popped(self, I, pos, stop):
        Whole.popped(self, I, pos, stop)
        I.fact(z3.Or(pos >= K, BND(pos)))
    def pool_add(self, I, this, args, node):
        pos = self.state(I, I.deref_lv(args[0]))[0]
        I.ob('%s: the analysis goes through the abbreviations one by one' % who(I), z3.Or(pos >= K, BND(pos)), 'pre')
        return Whole.pool_add(self, I, this, args, node)
class Rule2(Rule1):
    def apply(self, I, node, tu, this, args):
        I.ob('%s: abbreviations are not read by the spelling rules' % who(I), I.ghost['ctx']['pos'] >= K, 'pre')
        return Rule1.apply(self, I, node, tu, this, args)
class Abbr2(Abbr1):
    def apply(self, I, node, tu, this, args):
        s0, stop = self.check(I, args)
        r = z3.Bool('abbr!%d' % I.newid())
        I.fact(z3.Implies(z3.And(r, s0 >= K), z3.And(stop < s0 + 2, iscons(TXT(s0)))))
        _, _, dag, linked = self.V.state(I, I.deref_lv(args[1]))
        pool = I.read(args[2])
        t = z3.And(s0 < K, zb(self.V.tracked(s0, stop, dag, zb(I.truth(linked)))))
        I.fact(z3.Implies(z3.And(s0 < K, BND(s0)), r))
        I.write(args[2], OpaqueV('pool', dict(has=por([pool.d['has'], t]))))
        return r
def tasks(P, tier):
    V = Abbrs(P, 'C22'); E = V.E
    def read(n):
        """an abbreviation of n letters is read, and what follows is analysed like the beginning of a text"""
        class R(Reg):
            def text(self, I): return Env.text(self, I)
        W = R(P, 'C22')
        def run(I):
            w = W.text(I)
            s, pos, stop = state(I)
            if I.choose(2): s = s.set('isLinked', True)
            at = I.read(w).at
            for i in range(-1, n + 2): at(z3.simplify(pos + i))
            I.fact(z3.And(pos < stop, z3.Or(pos == 0, oneof(TXT(z3.simplify(pos - 1)), ' .')), V.unit(pos, n, stop)))
            r = zb(I.truth(call(I, 'FindAbbr', None, [w, I.alloc(s), I.alloc(OpaqueV('pool', {}))], inline=True)))
            m, end, alts = n or 1, z3.simplify(pos + n + 1), []
            for q, st, dag, ln in I.ghost['added']:
                sink, chain, left = dag.close(I)
                if left or len(chain) != m: continue
                alt = [q == end, st == stop, pnot(I.truth(ln))]
                for i, (a, b, l) in enumerate(chain):
                    lv, c, to = I.alloc(l), TXT(z3.simplify(pos + i)), z3.simplify(pos + i + 1) if i < m - 1 else end
                    want = (SND(c), E.i2('NONE'), E.v('AUU'), E.e('NONE'), z3.If(CLS(c) == E.c('HIGH'), zi(E.t('CHATTAWA')), zi(E.t('SAMAN'))))
                    alt += [a == pos + i, b == to, eqi(call(I, 'Syl::endPos', lv), to), pnot(I.truth(call(I, 'Syl::isLiteral', lv)))] + [eqi(x, y) for x, y in zip(acc(I, lv), want)]
                alts.append(pand(alt))
            what = 'one letter at the end' if not n else '%d letter%s and a full stop' % (n, 's'[:n > 1])
            I.ob('FindAbbr: %s: recognised' % what, r, 'post')
            I.ob('FindAbbr: %s: nothing else is read' % what, len(alts) == len(I.ghost['added']) and pand(alts), 'post')
            I.ob('FindAbbr: %s: read as the names of the letters, followed by the rest of the text' % what, por(alts), 'post')
        return vc.Task('FindAbbr %d' % n, run, ['FindAbbr'], hooks=W.hooks(), fresh_hooks=W.fresh_hooks(), setup=setup, loopspecs=Everywhere(lambda I, i, n: dict(inv=lambda ctx: [], unroll=20, soft=True)))
    def setup(I): I.quickms = 500
    return [read(n) for n in range(5)] + whole_tasks(P, 'C22', V=V, abbr=Abbr2(V, None), since=K, rule=Rule2) + parsemain.pool_tasks(P, 'C22') + parsemain.parse_word_tasks(P, 'C22')
def bounded(B):
    B.drive('drv_abbr', [B.seed, B.scale(40000, 600000, 200000)], timeout=B.scale(120, 600, 200))
