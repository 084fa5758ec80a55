"""The text analysis under contract.

The text is an arbitrary sequence of UTF-16 units.  The pronunciation graph of
a state is abstracted to its only sink and the edges added since; the state
pool to the obligation that every state put into it is in order.  The letter
tables (InitConsSound, InitConsClass, EndConsClass), the tone rule and the
vowel-length and dead-ending tests are used through their contracts (proved
for C01): uninterpreted functions with valid results.  What each property asks
of a state put into the pool is generated at StatePool::add."""
from contracts.spec import *
import models
Z, B_ = z3.IntSort(), z3.BoolSort()
TXT = z3.Function('text', Z, Z)
N = z3.Int('textlen')
SND, CLS, FIN = [z3.Function(x, Z, Z) for x in ('sound', 'class', 'final')]
TONE = z3.Function('tone', Z, Z, B_, B_, Z)
SHORTV, DEAD = z3.Function('short', Z, B_), z3.Function('dead', Z, B_)
def zi(x): return z3.IntVal(x) if isinstance(x, int) else x
def rng(c, *r): return z3.Or([z3.And(c >= a, c <= b) if a != b else c == a for a, b in r])
def iscons(c): return rng(c, (0xe01, 0xe23), (0xe25, 0xe25), (0xe27, 0xe2e))
def isru(c): return rng(c, (0xe24, 0xe24), (0xe26, 0xe26))
def istone(c): return rng(c, (0xe48, 0xe4b))
def isld(c): return rng(c, (0xe40, 0xe44))
def istok(c): return rng(c, (0x2e, 0x2e), (0xe01, 0xe2e), (0xe30, 0xe39), (0xe40, 0xe45), (0xe47, 0xe4c))
WIN = 14                                   # no rule reads further than this from the start of a syllable
class Env:
    """one property's view: what it asks for"""
    def __init__(self, P, which):
        self.P, self.E, self.which = P, Enums(P), which
        E = self.E
        self.sounds = [E.s(x) for x in SOUNDS]; self.secs = [E.i2(x) for x in SECS]; self.vowels = [E.v(x) for x in VOWELS]
        self.ends = [E.e(x) for x in ENDS]; self.tones = [E.t(x) for x in TONES]
        self.classes = [E.c(x) for x in ('MID', 'HIGH', 'LOWP', 'LOWS')]
    letters = 'รลวยหอ'
    # ---- letters
    def sndx(self, c): return z3.If(c == 0xe24, self.E.s('RA'), z3.If(c == 0xe26, self.E.s('LA'), SND(c)))
    def clsx(self, c): return z3.If(isru(c), self.E.c('LOWS'), CLS(c))
    def mark(self, c):
        E = self.E
        return z3.If(c == 0xe48, E.t('EK'), z3.If(c == 0xe49, E.t('THO'), z3.If(c == 0xe4a, E.t('TRI'), E.t('CHATTAWA'))))
    # ---- contracts of the tables and rules
    def hooks(self):
        E = self.E
        def table(F, vals):
            def h(I, this, args, node):
                c = I.deref_lv(args[0]); c = zi(c)
                I.ob('%s: argument is a Thai letter' % I.where(), rng(c, (0xe01, 0xe2e)), 'pre')
                I.fact(z3.Implies(iscons(c), inset(F(c), vals)))
                return F(c)
            return h
        def tone(I, this, args, node):
            a = [I.deref_lv(x) for x in args]
            r = TONE(zi(a[0]), zi(a[1]), zb(I.truth(a[2])), zb(I.truth(a[3])))
            I.fact(z3.Implies(zb(pand([inset(a[0], self.classes), inset(a[1], self.tones)])), inset(r, self.tones)))
            return r
        def pure(F):
            def h(I, this, args, node): return F(zi(I.deref_lv(args[0])))
            return h
        return {'InitConsSound': table(SND, self.sounds), 'InitConsClass': table(CLS, self.classes), 'EndConsClass': table(FIN, self.ends),
                'ToneFromWritten': tone, 'IsShortVowel': pure(SHORTV), 'IsDeadEndConsClass': pure(DEAD),
                'DAG<Syl>::addEdge': self.add_edge, 'StatePool::add': self.pool_add}
    def fresh_hooks(self):
        return {'PronunDAG': DagHook(), 'StatePool': PoolHook()}
    # ---- text
    def text(self, I):
        seen = set()
        def at(j):
            j = zi(j); v = TXT(j)
            if v.get_id() not in seen:
                seen.add(v.get_id()); I.ghost.setdefault('chars', []).append(v); I.fact(z3.And(v >= 0, v < 65536))
            return v
        I.fact(z3.And(N >= 0, N < 20000000))
        E = self.E
        if self.which in ('C09', 'C10', 'C20', 'C21', 'C22'):
            for c in self.letters:
                for F, tab, e in ((SND, SOUND, E.s), (CLS, dict(MID=MID, HIGH=HIGH, LOWP=LOWP, LOWS=LOWS), E.c), (FIN, FINAL, E.e)):
                    for k, ls in tab.items():
                        if c in ls: I.fact(F(ord(c)) == e(k))
            for v in VOWELS: I.fact(SHORTV(E.v(v)) == (v in SHORT))
            for e in ENDS: I.fact(DEAD(E.e(e)) == (e in DEADENDS))
        return I.alloc(SeqV('char16_t', N, at, None, (z3.Int('textid'), 0), 'u16'))
    def popped(self, I, pos, stop):
        """what holds of every state in the pool"""
        I.fact(z3.And(0 <= pos, pos <= stop, stop <= N))
        if self.which == 'C11':
            i = z3.Int('i')
            I.assume(z3.ForAll([i], z3.Implies(z3.And(i >= pos, i < stop), istok(TXT(i))), patterns=[TXT(i)]))
            I.assume(z3.Implies(z3.And(pos >= stop, pos < N), z3.And(pos > 0, istok(TXT(pos - 1)))))
    # ---- sinks
    def add_edge(self, I, this, args, node):
        d = I.deref_lv(this)
        if not isinstance(d, DagV): return NotImplemented
        a, b = I.deref_lv(args[0]), I.deref_lv(args[1])
        I.write(this, d.plus(a, b, I.deref_lv(args[2])))
        return I.leaf('added!%d' % I.newid(), B_, ())
    def state(self, I, v):
        if not isinstance(v, StructV): raise Unsupported('state')
        try: return zi(v.f['pos']), zi(v.f['stopPos']), v.f['pronDAG'], v.f['isLinked']
        except KeyError as e: raise Unsupported('field %s of a state' % e)
    def pool_add(self, I, this, args, node):
        pos, stop, dag, linked = self.state(I, I.deref_lv(args[0]))
        c = I.ghost['ctx']
        at = who(I)
        w = self.which
        pool = I.read(this)
        if 'rules' in c: c['rules'](at)
        if w in ('C07', 'C11', 'C12'):
            I.ob('%s: new state inside the stretch' % at, pand([pos >= 0, pos <= stop, stop <= N]), 'pre')
        if w == 'C07': I.ob('%s: new state is further on' % at, c['further'](pos, stop), 'pre')
        if w == 'C11':
            i = z3.Int('i!%d' % I.newid())
            I.ob('%s: the stretch of the new state is without other characters' % at, z3.Implies(z3.And(i >= pos, i < stop), istok(TXT(i))), 'pre')
            I.ob('%s: an ended stretch ended with a letter' % at, z3.Implies(z3.And(pos >= stop, pos < N), z3.And(pos > 0, istok(TXT(pos - 1)))), 'pre')
        if w in ('C07',): return
        sink = self.edges(I, at, dag, True)
        if w in ('C08', 'C12'): I.ob('%s: the graph of the new state ends at its position' % at, sink == pos, 'post')
        if w == 'C12' and isinstance(pool, OpaqueV) and 'has' in pool.d:
            k = I.ghost['key']
            I.write(this, OpaqueV('pool', dict(some=True, has=por([pool.d['has'], pand([pos == k, dag.hasr])]))))
    def edges(self, I, at, dag, final=False):
        """obligations about the edges added to a graph; -> its sink"""
        w = self.which
        sink, chain, left = dag.close(I)
        if left: raise Unsupported('edges that do not continue the graph')
        if w == 'C08': self.advance(I, at, chain)
        if w in ('C09', 'C10'):
            for a, b, l in chain: self.syllable(I, at, a, b, l, chain)
        if w == 'C11':
            for a, b, l in chain: self.literal(I, at, a, b, l)
        if dag.altn is not None:
            if final and w == 'C08': I.ob('%s: no way into the graph is left behind' % at, por([dag.altn == 0, dag.nin == 0]), 'post')
            sink = z3.If(dag.altn > 0, dag.alt, sink)
        if dag.paltn is not None: sink = z3.If(dag.paltn > 0, dag.palt, sink)
        return sink
    def literal(self, I, at, a, b, l):
        lv = I.alloc(l)
        c = I.ghost['ctx']
        if not I.branch(I.truth(call(I, 'Syl::isLiteral', lv))):
            I.ob('%s: a syllable covers no other characters' % at, z3.And(z3.Or(a < 0, a >= c['pos']), z3.Or(b < 0, b <= c['stop'])), 'post')
            return
        s = I.deref_lv(call(I, 'Syl::literal', lv))
        if not isinstance(s, SeqV): raise Unsupported('literal')
        j = z3.Int('j!%d' % I.newid())
        I.assume(z3.And(j >= 0, j < s.n))
        same = zb(eqi(s.at(j), TXT(a + j)))
        one = z3.And(zb(eqi(s.n, 1)), b == a + 1, TXT(a) == 0x2e, same)
        run = z3.And(zb(eqi(s.n, b - a)), same, z3.Not(istok(TXT(a + j))), z3.Or(a == 0, istok(TXT(a - 1))), z3.Or(b == N, istok(TXT(b))))
        I.ob('%s: a literal is a full stop or a whole run of other characters, copied' % at, z3.Or(one, run), 'post')
    def advance(self, I, at, chain):
        for k, (a, b, l) in enumerate(chain):
            e = call(I, 'Syl::endPos', I.alloc(l))
            I.ob('%s: syllable ends where it says' % at, eqi(e, b), 'post')
            if I.branch(b >= 0):
                s = a
                if k and I.entails(zb(chain[k - 1][1] < 0)): s = chain[k - 1][0]
                I.ob('%s: positions advance' % at, z3.And(s >= 0, b > s), 'post')
            else:
                if k + 1 >= len(chain): raise Unsupported('pre-syllable without a main syllable')
                t = chain[k + 1][1]
                if not I.entails(zb(pand([b == -(a * 100 + t), a >= 0, t > a, t < a + 100]))): raise Unsupported('numbering of intermediate points')
    def syllable(self, I, at, a, b, l, chain):
        lv = I.alloc(l)
        if I.branch(I.truth(call(I, 'Syl::isLiteral', lv))): return
        s, c2, v, e, t = [zi(x) for x in acc(I, lv)]
        if self.which == 'C09':
            for nm, x, vals in (('initial sound', s, self.sounds), ('cluster', c2, self.secs), ('vowel', v, self.vowels), ('ending', e, self.ends), ('tone', t, self.tones)):
                I.ob('%s: syllable has a real %s' % (at, nm), inset(x, vals), 'post')
            return
        E = self.E
        s0 = chain[0][0]; end = chain[-1][1]
        pre = len(chain) > 1 and I.entails(zb(b < 0))
        if len(chain) > (2 if pre or I.entails(zb(a < 0)) else 1): raise Unsupported('several syllables')
        T = lambda i: TXT(z3.simplify(i))
        ld = I.branch(isld(T(s0)))
        f = z3.simplify(s0 + 1) if ld else s0
        dead = z3.If(e == E.e('NONE'), SHORTV(v), DEAD(e)); short = SHORTV(v)
        m = zi(E.t('SAMAN'))
        if pre:
            # the clipped syllable of the first consonant
            I.ob('%s: pre-syllable has the sound and tone of the first consonant' % at, z3.And(
                iscons(T(f)), s == SND(T(f)), c2 == E.i2('NONE'), e == E.e('NONE'), t == TONE(CLS(T(f)), m, dead, short)), 'post')
            return
        I.ob('%s: stretch is short' % at, z3.And(end > s0, end <= s0 + WIN), 'post')
        one, m = self.marks(s0, end)
        I.ob('%s: at most one tone mark' % at, one, 'post')
        own = z3.Or(iscons(T(f)), isru(T(f))); nxt = z3.Or(iscons(T(f + 1)), isru(T(f + 1)))
        c0, c1 = self.clsx(T(f)), self.clsx(T(f + 1))
        tn = lambda c: t == TONE(c, m, dead, short)
        two = z3.And(f + 1 < N, f + 1 <= end, nxt, s == self.sndx(T(f + 1)))
        first = z3.And(own, s == self.sndx(T(f)))
        I.ob('%s: initial sound is written' % at, z3.Or(first, two), 'post')
        I.ob('%s: tone follows the rule' % at, z3.Or(z3.And(first, tn(c0)), z3.And(two, z3.Or(tn(c1), z3.And(c1 == E.c('LOWS'), tn(c0))))), 'post')
        n1 = T(f + 1)
        I.ob('%s: cluster is written' % at, z3.Or(c2 == E.i2('NONE'), z3.And(first, f + 1 < end, z3.Or(
            z3.And(c2 == E.i2('RA'), rng(n1, (0xe23, 0xe24))), z3.And(c2 == E.i2('LA'), n1 == 0xe25), z3.And(c2 == E.i2('WA'), n1 == 0xe27)))), 'post')
        I.ob('%s: final class is written' % at, self.final(e, s0, f, end), 'post')
    # ---- partial syllables
    def part(self, p):
        try:
            r = dict(pos=zi(p.f['pos']), has=zb(p.f['hasPreSyl']), pre=p.f['preSyl'], done=zb(p.f['isComplete']))
            for k, x in (('s', 'iConsSound'), ('k', 'iConsClass'), ('c2', 'iCons2'), ('v', 'vowel'), ('e', 'eConsClass'), ('t', 'tone')): r[k] = zi(p.f[x])
            for k, x in (('ps', 'mICons1'), ('p2', 'mICons2'), ('pv', 'mVowel'), ('pe', 'mECons'), ('pt', 'mTone')): r[k] = zi(r['pre'].f[x])
            r['plit'] = zi(r['pre'].f['mLiteral'].n)
        except KeyError as x: raise Unsupported('field %s of a partial syllable' % x)
        return r
    def source(self, r, pos, end):
        """initial sound, class and cluster are those of the letters from pos on"""
        E = self.E
        a, b = TXT(pos), TXT(z3.simplify(pos + 1))
        two = z3.And(end >= pos + 2, z3.Or(iscons(b), b == 0xe24))
        src0 = z3.And(z3.Or(iscons(a), isru(a)), r['s'] == self.sndx(a), r['k'] == self.clsx(a))
        src1 = z3.And(two, iscons(a), r['s'] == self.sndx(b), r['c2'] == E.i2('NONE'), z3.Or(r['k'] == self.clsx(b), z3.And(self.clsx(b) == E.c('LOWS'), r['k'] == CLS(a))))
        return [('sound and class written', z3.Or(src0, src1)),
                ('cluster written', z3.Or(r['c2'] == E.i2('NONE'), z3.And(src0, end >= pos + 2, z3.Or(
                    z3.And(r['c2'] == E.i2('RA'), rng(b, (0xe23, 0xe24))), z3.And(r['c2'] == E.i2('LA'), b == 0xe25), z3.And(r['c2'] == E.i2('WA'), b == 0xe27)))))]
    def presyl(self, r, pos):
        E = self.E; a = TXT(pos)
        return ('pre-syllable', z3.Implies(r['has'], z3.And(r['plit'] == 0, iscons(a), inset(r['ps'], self.sounds), r['p2'] == E.i2('NONE'), inset(r['pv'], self.vowels),
                r['pe'] == E.e('NONE'), inset(r['pt'], self.tones), r['ps'] == SND(a), r['pt'] == TONE(CLS(a), E.t('SAMAN'), SHORTV(r['pv']), SHORTV(r['pv'])))))
    def partial(self, p, pos, stop):
        """what a way of reading the initial consonants promises"""
        E = self.E
        r = self.part(p); q = r['pos']
        out = [('consumes one to three letters', z3.And(q >= pos + 1, q <= pos + 3, q <= stop, iscons(TXT(pos))))]
        out.append(('complete ones have a vowel', z3.Implies(r['done'], z3.And(inset(r['v'], self.vowels), r['t'] == E.t('SAMAN')))))
        out.append(('vowel is real or open', z3.Or(r['v'] == E.v('INVALID'), inset(r['v'], self.vowels))))
        out.append(('no ending yet', r['e'] == E.e('NONE')))
        if self.which in ('C09', 'C10'):
            out.append(('real sound', z3.And(inset(r['s'], self.sounds), inset(r['k'], self.classes), inset(r['c2'], self.secs))))
            out.append(self.presyl(r, pos))
        if self.which == 'C11': out.append(('pre-syllable is not literal', z3.Implies(r['has'], r['plit'] == 0)))
        if self.which == 'C10':
            out.append(('consumes consonants', z3.And(z3.Implies(q >= pos + 2, z3.Not(istone(TXT(z3.simplify(pos + 1))))), z3.Implies(q == pos + 3, z3.Not(istone(TXT(z3.simplify(pos + 2))))))))
            out += self.source(r, pos, q)
        return out
    def ready(self, I, p, s0, stop, end, ending=True):
        """the syllable p can be added over the stretch from s0 to end"""
        E, w = self.E, self.which
        r = self.part(p)
        out = []
        if w == 'C11': out.append(('pre-syllable is not literal', z3.Implies(r['has'], r['plit'] == 0)))
        if w in ('C07', 'C11'): out.append(('inside the stretch and further on', z3.And(end > s0, end <= stop, stop <= N)))
        if w == 'C08': out.append(('further on, not far', z3.And(end > s0, end <= s0 + WIN)))
        if w in ('C09', 'C10'):
            for nm, k, vals in (('initial sound', 's', self.sounds), ('class', 'k', self.classes), ('cluster', 'c2', self.secs), ('vowel', 'v', self.vowels),
                                ('ending', 'e', self.ends), ('written tone', 't', self.tones)):
                out.append(('real ' + nm, inset(r[k], vals)))
        if w in ('C09', 'C10'):
            f = z3.simplify(s0 + 1) if I.branch(isld(TXT(s0))) else s0
            out.append(self.presyl(r, f))
        if w == 'C10':
            out.append(('further on, not far', z3.And(end > f, end <= s0 + WIN, end <= stop, stop <= N)))
            out += self.source(r, f, end)
            one, m = self.marks(s0, end)
            out += [('at most one tone mark', one), ('tone mark as written', r['t'] == m)]
            if ending: out.append(('final class written', self.final(r['e'], s0, f, end)))
        return out
    def marks(self, s0, end):
        offs = [z3.simplify(s0 + k) for k in range(WIN)]
        marks = [z3.And(o < end, istone(TXT(o))) for o in offs]
        m = zi(self.E.t('SAMAN'))
        for mk, o in reversed(list(zip(marks, offs))): m = z3.If(mk, self.mark(TXT(o)), m)
        return z3.AtMost(*marks, 1), m
    def final(self, e, s0, f, end):
        E = self.E
        alts = [e == E.e('NONE'), z3.And(e == E.e('KOEY'), rng(TXT(s0), (0xe43, 0xe44)))]
        for k in range(1, WIN):
            o = z3.simplify(f + k); c = TXT(o)
            alts.append(z3.And(o <= end, o < N, z3.Or(z3.And(iscons(c), FIN(c) == e), z3.And(c == 0xe33, e == E.e('KOM')), z3.And(c == 0xe32, TXT(s0) == 0xe40, e == E.e('KOEW')))))
        return z3.Or(alts)

def mu(pos, stop): return 2 * (N - pos) + z3.If(pos >= stop, 1, 0)
def ctx(pos, stop): return dict(pos=pos, stop=stop, further=lambda q, st: mu(q, st) < mu(pos, stop))
def who(I):
    for f in reversed(I.frames):
        if f.q not in ('AddState', 'AddSyl', 'StatePool::add') and not f.q.startswith('init:'): return f.q
    return '?'

class DagV:
    """graph of a state: well formed with the one sink `sink` (0 if without edges) which `nin` edges enter,
    then `edges` added; altn edges into the sink were led to alt instead; paltn ways from the sink to palt
    were added side by side; hasr: the tracked reading is among them"""
    def __init__(self, sink, empty=False, edges=(), **k):
        self.sink, self.empty, self.edges = sink, empty, tuple(edges)
        self.nin, self.alt, self.altn, self.palt, self.paltn, self.hasr, self.gone, self.first = None, zi(0), None, zi(0), None, False, (), None
        self.has, self.old = False, False
        self.__dict__.update(k)
    def but(self, **k):
        d = dict(self.__dict__); d.update(k)
        return DagV(**d)
    def plus(self, a, b, l): return self.but(edges=self.edges + ((zi(a), zi(b), l),))
    def havoc_(self, I, name):
        x = lambda n: z3.Int(name + '.' + n)
        I.fact(z3.And(x('nin') >= 0, x('altn') >= 0, x('paltn') >= 0))
        return DagV(x('sink'), z3.Bool(name + '.empty'), nin=x('nin'), alt=x('alt'), altn=x('altn'), palt=x('palt'), paltn=x('paltn'), hasr=z3.Bool(name + '.hasr'), has=z3.Bool(name + '.has'), old=z3.Bool(name + '.old'))
    def ite_(self, c, o):
        """c ? self : o"""
        if self.edges or o.edges or self.gone or o.gone or (self.altn, o.altn, self.paltn, o.paltn) != (None,) * 4: raise Unsupported('join of graphs')
        f = lambda n: ite(c, getattr(self, n), getattr(o, n))
        return DagV(f('sink'), f('empty'), has=f('has'), old=f('old'))
    def close(self, I):
        s, left, chain = zi(self.sink), list(self.edges), []
        while left:
            for e in left:
                if e[0].eq(s) or I.entails(zb(e[0] == s)): break
            else: break
            left.remove(e); chain.append(e); s = e[1]
        return s, chain, left
class DagHook:
    def __call__(self, I, name, idx):
        f = lambda n, s: I.leaf(name + '.' + n, s, idx)
        return DagV(f('sink', Z), f('empty', B_), has=f('has', B_), old=f('old', B_))
    def construct(self, I, e, argn):
        if not argn: return DagV(z3.IntVal(0), True)
        v = I.rv(argn[0])
        if isinstance(v, DagV): return v
        raise Unsupported('graph construction')
class PoolHook:
    def __call__(self, I, name, idx): return OpaqueV('pool', {})
    def construct(self, I, e, argn): return OpaqueV('pool', {})

class InitCons:
    """contract of MatchInitCons: every reading of the initial consonants it offers is in order"""
    def __init__(self, V): self.V = V
    def applies(self, node): return True
    def apply(self, I, node, tu, this, args):
        pos, stop = zi(I.deref_lv(args[1])), zi(I.deref_lv(args[2]))
        I.ob('%s: initial consonants looked for inside the stretch' % I.where(), z3.And(pos >= 0, pos < stop, stop <= N), 'pre')
        rt = node['type']['qualType'].split('(')[0].strip()
        r = I.fresh(rt, 'ps!%d' % I.newid())
        if not isinstance(r, SeqV): raise Unsupported('result of MatchInitCons')
        V, cache = self.V, {}
        def at(j):
            j = zi(j)
            if j.get_id() in cache: return cache[j.get_id()][1]
            p = r.at(j)
            k = I.choose(3)
            p = p.set('pos', z3.simplify(pos + 1 + k))
            for nm, f in V.partial(p, pos, stop): I.fact(f)
            cache[j.get_id()] = (j, p)
            return p
        return SeqV(r.et, r.n, at, None, None, r.kind)

def ptypes(node): return [interp.strip_type(interp.ctype(x)) for x in node.get('inner', []) if x['kind'] == 'ParmVarDecl']
class Karan:
    """silenced letters are skipped as a whole or not at all"""
    def applies(self, node): return len(ptypes(node)) == 3 and ptypes(node)[1:] == ['int', 'int']
    @staticmethod
    def post(pos, stop, r):
        c = [TXT(z3.simplify(pos + k)) for k in range(3)]
        return z3.Or(r == pos, z3.And(r == pos + 2, r <= stop, iscons(c[0]), c[1] == 0xe4c),
                     z3.And(r == pos + 3, r <= stop, iscons(c[0]), z3.Not(istone(c[1])), c[2] == 0xe4c))
    def apply(self, I, node, tu, this, args):
        pos, stop = zi(I.deref_lv(args[1])), zi(I.deref_lv(args[2]))
        I.ob('%s: silenced letters looked for inside the stretch' % I.where(), z3.And(pos >= 0, pos <= stop, stop <= N), 'pre')
        r = z3.Int('karan!%d' % I.newid())
        I.fact(Karan.post(pos, stop, r))
        return r
class Add:
    """contract of AddState: given a complete syllable, a state in order is added"""
    def __init__(self, V): self.V = V
    def applies(self, node): return ptypes(node) == ['StatePool', 'int', 'ParseState', 'PartialSyl', 'bool']
    def apply(self, I, node, tu, this, args):
        V = self.V
        end = zi(I.deref_lv(args[1])); p = I.deref_lv(args[3])
        s0, stop, dag, _ = V.state(I, I.deref_lv(args[2]))
        same_state(I, s0, dag)
        for nm, f in V.ready(I, p, s0, stop, end): I.ob('%s adds a syllable: %s' % (who(I), nm), f, 'pre')
        forget(I, args[3])
def same_state(I, s0, dag):
    if not isinstance(dag, DagV) or dag.edges or not (dag.sink.eq(s0) or I.entails(zb(dag.sink == s0))): raise Unsupported('graph of the state')
def forget(I, lv, everything=False):
    p = I.read(lv)
    if everything: I.write(lv, I.fresh(p.t, 'p!%d' % I.newid()))
    else: I.write(lv, p.set('preSyl', p.f['preSyl'].set('mEndPos', z3.Int('endpos!%d' % I.newid()))))
class Eat:
    """contract of EatEndCons*: given a syllable lacking its ending, states in order are added"""
    def __init__(self, V): self.V = V
    def applies(self, node): return ptypes(node)[:4] == ['std::u16string', 'ParseState', 'PartialSyl', 'StatePool'] or ptypes(node)[1:4] == ['ParseState', 'PartialSyl', 'StatePool']
    def pre(self, I, p, s0, stop):
        q = zi(p.f['pos'])
        return [('a letter is left', z3.And(q > s0, q < stop, stop <= N, q <= s0 + WIN - 4))] + self.V.ready(I, p.set('eConsClass', self.V.E.e('NONE')), s0, stop, q, ending=False)
    def apply(self, I, node, tu, this, args):
        s0, stop, dag, _ = self.V.state(I, I.deref_lv(args[1]))
        same_state(I, s0, dag)
        for nm, f in self.pre(I, I.deref_lv(args[2]), s0, stop): I.ob('%s looks for an ending: %s' % (who(I), nm), f, 'pre')
        forget(I, args[2], True)
        return z3.Bool('eaten!%d' % I.newid())

class Everywhere(dict):
    """the same specification for the loops of every function"""
    def __init__(self, pick): self.pick = pick
    def get(self, k, d=None): return self.pick
def ranges(I, i, n):
    if n['kind'] == 'CXXForRangeStmt': return dict(inv=lambda ctx: [], unroll=True)

def tasks(P, which):
    V = Env(P, which)
    def setup(I): I.quickms = 500
    hooks = V.hooks()
    opt = dict(hooks=hooks, fresh_hooks=V.fresh_hooks(), setup=setup)
    def init(I):
        w = V.text(I)
        pos, stop = z3.Ints('pos stop')
        I.fact(z3.And(0 <= pos, pos < stop, stop <= N))
        r = I.deref_lv(call(I, 'MatchInitCons', None, [w, pos, stop, z3.Bool('linked')], inline=True))
        if not isinstance(r, SeqV) or r.conc is None: raise Unsupported('result of MatchInitCons')
        for p in r.conc:
            for nm, f in V.partial(p, pos, stop): I.ob('MatchInitCons: ' + nm, f, 'post')
    def start(I, extra=None):
        w = V.text(I)
        s = I.fresh('ParseState', 's')
        pos, stop = zi(s.f['pos']), zi(s.f['stopPos'])
        I.fact(z3.And(0 <= pos, pos < stop, stop <= N))
        s = s.set('pronDAG', DagV(pos, False))
        I.ghost['ctx'] = ctx(pos, stop)
        V.popped(I, pos, stop)
        return w, I.alloc(s), pos, stop, I.alloc(OpaqueV('pool', {}))
    C = {'MatchInitCons': InitCons(V), 'AddState': Add(V)}
    for k in ('MatchKaranSimple', 'MatchKaranIU', 'MatchKaranComplex'): C[k] = Karan()
    for k in ('EatEndConsSimple', 'EatEndConsComplex'): C[k] = Eat(V)
    opt['contracts'] = C
    def step(q, given):
        def run(I):
            w, s, pos, stop, pool = start(I)
            I.fact(given(TXT(pos)))
            call(I, q, None, [w, s, pool], inline=True)
        return vc.Task(q, run, [q], loopspecs=Everywhere(ranges), **opt)
    def add(I):
        w, s, pos, stop, pool = start(I)
        p, end = I.fresh('PartialSyl', 'p'), z3.Int('end')
        for nm, f in V.ready(I, p, pos, stop, end): I.fact(f)
        call(I, 'AddState', None, [pool, end, s, I.alloc(p), z3.Bool('linked')], inline=True)
    def eat(q):
        def run(I):
            w, s, pos, stop, pool = start(I)
            p = I.fresh('PartialSyl', 'p')
            for nm, f in C[q].pre(I, p, pos, stop): I.fact(f)
            if not C[q].applies(fn(P, q)[0]): raise Unsupported(q)
            call(I, q, None, [w, s, I.alloc(p), pool, I.alloc(SetX('excluded'))], inline=True)
        return vc.Task(q, run, [q], **opt)
    def karan(q):
        def run(I):
            w = V.text(I)
            pos, stop = z3.Ints('pos stop')
            I.fact(z3.And(0 <= pos, pos <= stop, stop <= N))
            r = zi(call(I, q, None, [w, pos, stop], inline=True))
            I.ob(q + ': skips silenced letters', Karan.post(pos, stop, r), 'post')
        return vc.Task(q, run, [q], **opt)
    out = [vc.Task('MatchInitCons', init, ['MatchInitCons'], **opt)]
    out += [step('ParseThCons', iscons), step('ParseSaraE', lambda c: c == 0xe40), step('ParseOtherLV', lambda c: rng(c, (0xe41, 0xe44))), step('ParseRuLu', isru)]
    out += [vc.Task('AddState', add, ['AddState', 'AddSyl'], **opt)] + [eat(q) for q in ('EatEndConsSimple', 'EatEndConsComplex')]
    out += [karan(q) for q in ('MatchKaranSimple', 'MatchKaranIU', 'MatchKaranComplex')]
    return out
class SetX(SetV):
    """an arbitrary set of characters"""
    def __init__(self, name): self.F = z3.Function(name, Z, B_); self.items = []
    def has(self, x): return self.F(zi(x))
