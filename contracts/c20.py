"""C20: Regularly spelled syllables are read."""
from contracts.parse import *
from contracts import parsemain
BUILDS = ('std',)
BOUND = 'every regularly spelled syllable (66 initials, 49 vowel forms, 41 final letters, tone marks; 173,851 spellings) alone; sampled sequences of two and three'
ASSUMPTIONS = [
    'libthai character predicates as tables; UTF-8 to UTF-16 conversion trusted; text shorter than 20,000,000 UTF-16 units',
    'letter classes, sounds, ending classes, short vowels and the tone rule used through their contracts (discharged by C01)',
    'union and edge insertion of PronunDAG used through their contracts (discharged by C04 and C06); listing of all paths of the graph (discharged by C05 and C06)']
# C initial letters, T tone mark, F final letter
OPEN = [('CTะ', 'A'), ('CTา', 'AA'), ('CิT', 'I'), ('CีT', 'II'), ('CึT', 'UE'), ('CืTอ', 'UEE'), ('CุT', 'U'), ('CูT', 'UU'),
        ('เCTะ', 'E'), ('เCT', 'EE'), ('แCTะ', 'AE'), ('แCT', 'AEE'), ('โCTะ', 'O'), ('โCT', 'OO'), ('เCTาะ', 'AU'), ('CTอ', 'AUU'),
        ('เCTอะ', 'OE'), ('เCTอ', 'OEE'), ('เCีTย', 'IAA'), ('เCีTยะ', 'IA'), ('เCืTอ', 'UEAA'), ('เCืTอะ', 'UEA'), ('CัTว', 'UAA'), ('CัTวะ', 'UA'),
        ('CTำ', 'A', 'KOM'), ('ไCT', 'A', 'KOEY'), ('ใCT', 'A', 'KOEY'), ('เCTา', 'A', 'KOEW'), ('เCTย', 'OEE', 'KOEY')]
CLOSED = [('CัTF', 'A'), ('CTาF', 'AA'), ('CิTF', 'I'), ('CีTF', 'II'), ('CึTF', 'UE'), ('CืTF', 'UEE'), ('CุTF', 'U'), ('CูTF', 'UU'),
          ('เC็F', 'E'), ('เCTF', 'EE'), ('แC็F', 'AE'), ('แCTF', 'AEE'), ('CTF', 'O'), ('โCTF', 'OO'), ('C็อF', 'AU'), ('CTอF', 'AUU'),
          ('เCิTF', 'OEE'), ('เCีTยF', 'IAA'), ('เCืTอF', 'UEAA'), ('CTวF', 'UAA')]
LEAD = 'งญนมยรลว'
CLUSTERS = ['กร', 'กล', 'กว', 'ขร', 'ขล', 'ขว', 'คร', 'คล', 'คว', 'ปร', 'ปล', 'พร', 'พล', 'ผล', 'ตร']
NOFINAL = {'CTF': 'ยรว', 'CัTF': 'ว', 'CิTF': 'ย', 'CีTF': 'ย', 'เCTF': 'ย'}      # those would be other vowels, or nothing
KINDS = ('one consonant', 'a leading ห', 'a cluster', 'an unwritten a')
SILENTRO, SILENTIU = 'กคชตท', 'ฒตธร'
def oneof(c, s): return z3.Or([c == ord(x) for x in s])
class Reg(Env):
    letters = 'หอ' + LEAD
    def __init__(self, P, which='C20', wide=True): Env.__init__(self, P, which); self.wide = wide
    def text(self, I):
        """letters, vowels, tone marks and maitaikhu only; in the wide sense also silencing marks, ฤ, ฦ and ๅ"""
        w = Env.text(self, I)
        t = I.read(w); at0 = t.at; seen = set()
        def at(j):
            v = at0(j)
            if v.get_id() not in seen:
                seen.add(v.get_id()); I.fact(plain(v, self.wide))
            return v
        return I.alloc(SeqV(t.et, t.n, at, None, t.key, t.kind))
    def pool_add(self, I, this, args, node):
        pos, stop, dag, linked = self.state(I, I.deref_lv(args[0]))
        I.ghost['added'].append((pos, stop, dag, linked))
BND, NEXT = z3.Function('boundary', Z, B_), z3.Function('next', Z, Z)
class Whole(parsemain.Main):
    """the text is a sequence of regular syllables; boundary(k): one of them ends, and unless the text does
    another begins, at k; next(k): where that one ends.  Tracked: the reading made of them, up to a boundary."""
    letters, text, wide = Reg.letters, Reg.text, False
    def layout(self, I, k):
        ru = z3.And(isru(TXT(k)), k == 0) if self.wide else z3.BoolVal(False)     # ฤ and ฦ: only at the beginning
        I.assume(z3.Implies(z3.And(BND(k), k < N), z3.And(k >= 0, NEXT(k) >= k + (1 if self.wide else 2), NEXT(k) <= N, BND(NEXT(k)), z3.Or(ru, z3.And(k + 2 <= N, parsemain.sylstart(TXT(k)))))))
    def tracked(self, pos, stop, dag, linked):
        return pand([BND(pos), stop == N, pnot(linked), por([dag.has, pand([dag.empty, pos == 0])])])
    def pool_add(self, I, this, args, node):
        pos, stop, dag, linked = self.state(I, I.deref_lv(args[0]))
        I.ob('%s: a stretch reaches to the end of the text' % who(I), stop == N, 'pre')
        pool = I.read(this)
        if not isinstance(pool, OpaqueV) or 'has' not in pool.d: raise Unsupported('state pool')
        t = self.tracked(pos, stop, dag, zb(I.truth(linked))) if not dag.edges else False
        I.write(this, OpaqueV('pool', dict(has=por([pool.d['has'], t]))))
    def pop(self, I, this, args, node):
        pool = I.read(this)
        if not isinstance(pool, OpaqueV): return NotImplemented
        if not I.branch(z3.Bool('popped!%d' % I.newid())):
            I.assume(z3.Not(zb(pool.d['has'])))
            return False
        k = I.newid()
        s = I.fresh('ParseState', 's!%d' % k)
        pos, stop = zi(s.f['pos']), zi(s.f['stopPos'])
        self.popped(I, pos, stop)
        t = z3.Bool('tracked!%d' % k)
        I.fact(stop == N)
        I.fact(z3.Implies(t, z3.And(zb(pool.d['has']), BND(pos), z3.Not(zb(I.truth(s.f['isLinked']))))))
        self.layout(I, pos)
        nin = z3.Int('nin!%d' % k); I.fact(z3.And(nin >= 0, (nin > 0) == (pos > 0)))
        I.write(args[0], s.set('pronDAG', DagV(pos, pos == 0, nin=nin, has=t)))
        I.write(this, OpaqueV('pool', dict(has=pand([pool.d['has'], pnot(t)]))))
        I.ghost['ctx'] = ctx(pos, stop)
        return True
    def add_edge(self, I, this, args, node):
        d = I.deref_lv(this)
        if isinstance(d, DagV): I.write(this, d.but(has=False))
        return parsemain.Main.add_edge(self, I, this, args, node)
    def edges(self, I, at, dag, final=False):
        if not dag.edges: return zi(dag.sink)
        sink, chain, left = dag.close(I)
        if left: raise Unsupported('edges that do not continue the graph')
        return sink
class PoolHook1(PoolHook):
    def construct(self, I, e, argn): return OpaqueV('pool', dict(has=False))
class Rule1(parsemain.Rule):
    """a syllable rule, at the beginning of a regular syllable, adds the state at its end (the obligations about the forms)"""
    def apply(self, I, node, tu, this, args):
        s0, stop = self.check(I, args)
        I.ob('%s: a rule is used at a letter it is for' % who(I), self.given(TXT(s0)), 'pre')
        _, _, dag, linked = self.V.state(I, I.deref_lv(args[1]))
        pool = I.read(args[2])
        I.write(args[2], OpaqueV('pool', dict(has=por([pool.d['has'], self.V.tracked(s0, stop, dag, zb(I.truth(linked)))]))))
class Abbr1(parsemain.Rule):
    def apply(self, I, node, tu, this, args):
        s0, stop = self.check(I, args)
        r = z3.Bool('abbr!%d' % I.newid())
        I.fact(z3.Implies(r, z3.And(stop < s0 + 2, iscons(TXT(s0)))))
        return r
class Skip1(parsemain.Skip):
    def __init__(self): pass
    def apply(self, I, node, tu, this, args): return zi(I.deref_lv(args[1]))
class Stop1(parsemain.Stop):
    def __init__(self): pass
    def apply(self, I, node, tu, this, args):
        if I.deref_lv(args[2]).conc != []: raise Unsupported('break positions')
        return N
def whole_tasks(P, which='C20', wide=False, V=None, abbr=None, since=0, rule=Rule1):
    V = V or Whole(P, which); V.wide = wide; abbr2 = abbr or Abbr1(V, None)
    def setup(I): I.quickms = 500
    hooks = V.hooks()
    f = dict(V.fresh_hooks(), StatePool=PoolHook1())
    opt = dict(hooks=hooks, fresh_hooks=f, setup=setup, loopspecs=parsemain.loops(V))
    def skip(I):
        w, a = V.text(I), z3.Int('start')
        I.fact(z3.And(a >= 0, a <= N))
        I.ob('SkipNonThai: skips nothing in a text of letters', zi(call(I, 'SkipNonThai', None, [w, a], inline=True)) == a, 'post')
    nobrk = lambda I: I.alloc(SeqV('int', zi(0), None, [], None, 'vector'))
    def stop(I):
        w, a = V.text(I), z3.Int('start')
        I.fact(z3.And(a >= 0, a < N))
        I.ob('NextWordStop: without breaks a text of letters is one stretch', zi(call(I, 'NextWordStop', None, [w, a, nobrk(I)], inline=True)) == N, 'post')
    def abbr(I):
        w = V.text(I)
        s = I.fresh('ParseState', 's')
        pos, stop = zi(s.f['pos']), zi(s.f['stopPos'])
        I.fact(z3.And(since <= pos, pos < stop, stop == N))
        I.ghost['ctx'] = ctx(pos, stop)
        r = zb(I.truth(call(I, 'FindAbbr', None, [w, I.alloc(s.set('pronDAG', DagV(pos, pos == 0))), I.alloc(OpaqueV('pool', dict(has=False)))], inline=True)))
        I.ob('FindAbbr: only a consonant alone is an abbreviation without a full stop', z3.Implies(r, z3.And(stop < pos + 2, iscons(TXT(pos)))), 'post')
    C = {'SkipNonThai': Skip1(), 'NextWordStop': Stop1(), 'FindAbbr': abbr2}
    for q, g in (('ParseThCons', iscons), ('ParseSaraE', lambda c: c == 0xe40), ('ParseOtherLV', lambda c: rng(c, (0xe41, 0xe44))), ('ParseRuLu', isru)): C[q] = rule(V, g)
    def main(I):
        w = V.text(I)
        I.ghost['ctx'] = dict(pos=zi(0), stop=N, further=lambda q, st: True)
        I.fact(z3.And(BND(0), BND(N), BND(since))); V.layout(I, zi(0))
        d = I.deref_lv(call(I, 'ParseU16', None, [w, PtrV(None, True), nobrk(I)], inline=True))
        if not isinstance(d, DagV): raise Unsupported('result of the analysis')
        I.ob('ParseU16: the regular syllables of the text, one after another, are a reading', z3.Or(N == 0, zb(d.has)), 'post')
    def brk(I):
        w = V.text(I)
        r = I.deref_lv(call(I, 'FindBreaks', None, [w, PtrV(None, True)], inline=True))
        I.ob('FindBreaks: no break positions without a word breaker', isinstance(r, SeqV) and eqi(r.n, 0), 'post')
    return [vc.Task('SkipNonThai', skip, ['SkipNonThai', 'IsThaiTokenChar', 'IsWordChar'], **opt), vc.Task('NextWordStop', stop, ['NextWordStop'], **opt), vc.Task('FindAbbr', abbr, ['FindAbbr'], **opt),
            vc.Task('ParseU16', main, ['ParseU16'], contracts=C, **opt), vc.Task('FindBreaks', brk, ['FindBreaks'], **opt)]
def plain(v, wide=False): return rng(v, (0xe01, 0xe2e), (0xe30, 0xe39), (0xe40, 0xe45), (0xe47, 0xe4c)) if wide else rng(v, (0xe01, 0xe23), (0xe25, 0xe25), (0xe27, 0xe2e), (0xe30, 0xe39), (0xe40, 0xe44), (0xe47, 0xe4b))
class Add1(Add):
    """contract of AddState: the syllable of p, if it has no pre-syllable, as one edge of an unlinked or linked state"""
    def apply(self, I, node, tu, this, args):
        s0, stop, dag, _ = self.V.state(I, I.deref_lv(args[2]))
        same_state(I, s0, dag)
        p = I.deref_lv(args[3])
        x = (zi(I.deref_lv(args[1])), stop, p, zb(I.truth(I.deref_lv(args[4]))))
        if I.entails(zb(I.ghost['alt'](*x))):
            I.ghost['done'](True)      # states are only ever added: what follows changes nothing
            I.assume(False)
        I.ghost['added'].append(x)
        forget(I, args[3])
class Karan1(Karan):
    """contract of the three scans for silenced letters"""
    def __init__(self, q): self.q = q
    @staticmethod
    def end(q, pos, stop):
        c = [TXT(z3.simplify(pos + k)) for k in range(3)]
        one = z3.And(pos + 1 < stop, iscons(c[0]), c[1] == 0xe4c)
        iu = oneof(c[1], 'ิุ')
        two = z3.And(pos + 2 < stop, iscons(c[0]), c[2] == 0xe4c, iu if q == 'MatchKaranIU' else z3.Or(iu, iscons(c[1])))
        r = z3.If(two, pos + 3, pos) if q != 'MatchKaranSimple' else pos
        return z3.If(one, pos + 2, r) if q != 'MatchKaranIU' else r
    def apply(self, I, node, tu, this, args):
        pos, stop = zi(I.deref_lv(args[1])), zi(I.deref_lv(args[2]))
        r = self.end(self.q, pos, stop)
        for k in (0, 2, 3):
            if I.entails(zb(r == pos + k)): return z3.simplify(pos + k)
        return z3.simplify(r)
class Eat1(Eat):
    """beyond the syllable at hand an ending only adds further readings"""
    def apply(self, I, node, tu, this, args):
        p = I.deref_lv(args[2])
        if I.entails(zb(zi(p.f['pos']) < I.ghost['end'])): return NotImplemented
        if not I.entails(zb(zi(p.f['pos']) >= I.ghost['end'])): return NotImplemented
        forget(I, args[2], True)
        return z3.Bool('eaten!%d' % I.newid())
def parts(P, which):
    """environment, options of the tasks about rule functions, and the tasks about the helpers they use"""
    V = Reg(P, which); E = V.E
    def setup(I): I.quickms = 500
    base = dict(hooks=V.hooks(), fresh_hooks=V.fresh_hooks(), setup=setup)
    KARAN = ('MatchKaranSimple', 'MatchKaranIU', 'MatchKaranComplex')
    C = {'AddState': Add1(V)}
    for k in KARAN: C[k] = Karan1(k)
    for k in ('EatEndConsSimple', 'EatEndConsComplex'): C[k] = Eat1(V)
    def add(I):
        V.text(I)
        s, pos, stop = state(I)
        pre = which != 'C20' and I.choose(2) == 1
        p, end, ln = I.fresh('PartialSyl', 'p').set('hasPreSyl', pre), z3.Int('end'), z3.Bool('linked')
        r = V.part(p)
        call(I, 'AddState', None, [I.alloc(OpaqueV('pool', {})), end, I.alloc(s), I.alloc(p), ln], inline=True)
        alts = []
        dead = z3.If(r['e'] == E.e('NONE'), SHORTV(r['v']), DEAD(r['e']))
        want = (r['s'], r['c2'], r['v'], r['e'], TONE(r['k'], r['t'], dead, SHORTV(r['v'])))
        for q, st, dag, l2 in I.ghost['added']:
            sink, chain, left = dag.close(I)
            if left or len(chain) != 1 + pre: continue
            a, b, l = chain[-1]
            lv = I.alloc(l)
            alt = [q == end, st == stop, eqi(zb(I.truth(l2)), ln), b == end, eqi(call(I, 'Syl::endPos', lv), end)]
            alt += [eqi(x, y) for x, y in zip(acc(I, lv), want)] + [pnot(I.truth(call(I, 'Syl::isLiteral', lv)))]
            if pre:
                lv = I.alloc(chain[0][2])
                alt += [eqi(x, r[y]) for x, y in zip(acc(I, lv), ('ps', 'p2', 'pv', 'pe', 'pt'))] + [eqi(call(I, 'Syl::endPos', lv), chain[0][1])]
            alts.append(pand(alt))
        I.ob('AddState: the state at the end of the syllable, with the syllable and its tone added to the graph', por(alts), 'post')
    def karan(q):
        def run(I):
            w = V.text(I)
            pos, stop = z3.Ints('pos stop')
            I.fact(z3.And(0 <= pos, pos <= stop, stop <= N))
            I.ob(q + ': letters with a silencing mark are skipped, others are not', zi(call(I, q, None, [w, pos, stop], inline=True)) == Karan1.end(q, pos, stop), 'post')
        return vc.Task(q, run, [q], **base)
    return V, dict(base, loopspecs=Everywhere(ranges), contracts=C), [vc.Task('AddState', add, ['AddState', 'AddSyl'], **base)] + [karan(q) for q in KARAN]
def state(I):
    I.ghost['added'] = []
    s = I.fresh('ParseState', 's').set('isLinked', False)
    pos, stop = zi(s.f['pos']), zi(s.f['stopPos'])
    I.fact(z3.And(0 <= pos, stop <= N))
    return s.set('pronDAG', DagV(pos, False)), pos, stop
RULE = {'เ': 'ParseSaraE', 'แ': 'ParseOtherLV', 'โ': 'ParseOtherLV', 'ไ': 'ParseOtherLV', 'ใ': 'ParseOtherLV', 'R': 'ParseRuLu'}
class Spelling:
    """the letters of the text from the state on are those of the form; what they are read as"""
    def __init__(self, V, I, kind, f, v, e=None):
        self.V, self.I, self.kind, self.f, E = V, I, kind, f, V.E
        self.w = V.text(I)
        self.s, self.pos, self.stop = state(I)
        self.k, self.last, self.pre, self.core = 0, None, None, f.rstrip('KLJ')
        self.ini, self.vowel, self.fin, self.mark = None, zi(E.v(v)), zi(E.e(e or 'NONE')), zi(E.t('SAMAN'))
        self.tone = 'T' in f and I.choose(2) == 1
        for x in f: self.letter(x)
    def ch(self, *facts):
        c = self.I.read(self.w).at(z3.simplify(self.pos + self.k)); self.k += 1
        for p in facts: self.I.fact(p(c))
        self.last = c
        return c
    def noro(self, c): self.I.fact(z3.Not(z3.And(self.last == 0xe23, c == 0xe23)))
    def unwritten(self, a, v='A'):
        E = self.V.E; short = v in SHORT
        self.pre = (SND(a), E.i2('NONE'), E.v(v), E.e('NONE'), TONE(CLS(a), E.t('SAMAN'), short, short))
    def letter(self, x):
        I, E, f, core, kind = self.I, self.V.E, self.f, self.core, self.kind
        NONE = zi(E.i2('NONE'))
        if x == 'C':
            a = self.ch(iscons)
            if kind == 0: self.ini = (SND(a), CLS(a), NONE)
            elif kind == 1: b = self.ch(lambda c: oneof(c, LEAD)); I.fact(a == 0xe2b); self.ini = (SND(b), zi(E.c('HIGH')), NONE)
            elif kind == 2:
                b = self.ch(); I.fact(z3.Or([z3.And(a == ord(q[0]), b == ord(q[1])) for q in CLUSTERS]))
                self.ini = (SND(a), CLS(a), z3.If(b == 0xe23, zi(E.i2('RA')), z3.If(b == 0xe25, zi(E.i2('LA')), zi(E.i2('WA')))))
                if core == 'CTF': I.fact(b != ord('ว'))
            else:
                b = self.ch(iscons); self.ini = (SND(b), z3.If(CLS(b) == E.c('LOWS'), CLS(a), CLS(b)), NONE); self.unwritten(a)
                if core[:3] == 'เCT' and core[3:] in ('', 'ะ', 'F', 'Q', 'U'): I.fact(b != ord('อ'))
            for c in (a, self.last): I.fact(z3.And([z3.Implies(SND(c) == E.s(k), c == ord(x)) for k, x in (('A', 'อ'), ('RA', 'ร'))]))
            if 'ร' in f and (kind or 'รร' not in f): I.fact(self.last != 0xe23)
        elif x == 'T':
            if self.tone: self.mark = self.V.mark(self.ch(istone))
        elif x in 'FQU':
            l = self.last; c = self.ch(iscons, lambda c: FIN(c) != E.e('NONE')); self.fin = FIN(c)
            if core in NOFINAL: I.fact(z3.Not(oneof(c, NOFINAL[core])))
            if kind: I.fact(z3.Not(z3.And(l == 0xe23, c == 0xe23)))
            if x == 'Q': I.fact(oneof(c, SILENTRO)); self.ch(lambda c: c == 0xe23)
            if x == 'U': I.fact(oneof(c, SILENTIU)); self.ch(lambda c: oneof(c, 'ิุ'))
        elif x in 'KLJ':
            l = self.last; c = self.ch(iscons)
            if kind: I.fact(z3.Not(z3.And(l == 0xe23, c == 0xe23)))
            n = I.choose(3) if x == 'L' else 1 if x == 'J' else 0
            if n: self.ch(iscons if n == 2 else lambda c: oneof(c, 'ิุ'))
            self.ch(lambda c: c == 0xe4c)
        else: self.ch(lambda c: c == ord(x))
    def check(self, name, alone=True, next=lambda *c: True):
        """followed by the end of the text (if it can stand alone) or by another syllable, the rule function adds the state behind it"""
        I, V, f = self.I, self.V, self.f
        end = I.ghost['end'] = z3.simplify(self.pos + self.k)
        I.fact(end <= self.stop if alone else end < self.stop)
        if not I.branch(end == self.stop):
            at = I.read(self.w).at
            c, d, e = at(end), at(z3.simplify(end + 1)), at(z3.simplify(end + 2))
            I.fact(z3.And(parsemain.sylstart(c), z3.Implies(end + 1 < self.stop, d != 0xe4c), z3.Implies(end + 2 < self.stop, e != 0xe4c)))
            if f == 'เCT': I.fact(c != ord('ย'))
            if f[-2:] == 'CT' and self.kind or f == 'CTร': self.noro(c)
            I.fact(next(c, d, end + 1 < self.stop))
        fn_ = RULE.get(f[0], 'ParseThCons')
        want = list(zip(('s', 'k', 'c2', 'v', 'e', 't'), self.ini + (self.vowel, self.fin, self.mark)))
        if self.pre: want += list(zip(('ps', 'p2', 'pv', 'pe', 'pt', 'plit'), self.pre + (0,)))
        def alt(q, st, p, ln):
            r = V.part(p)
            return pand([q == end, st == self.stop, pnot(ln), r['has'] == bool(self.pre)] + [r[x] == y for x, y in want])
        I.ghost['alt'], I.ghost['done'] = alt, lambda c: I.ob('%s: %s' % (fn_, name), c, 'post')
        call(I, fn_, None, [self.w, I.alloc(self.s), I.alloc(OpaqueV('pool', {}))], inline=True)
        I.ghost['done'](por([alt(*x) for x in I.ghost['added']]))
FNS = ['MatchInitCons', 'EatEndConsSimple', 'EatEndConsComplex', 'ThCharToTone', 'ThCharToAboveBelowVowel', 'IsSylStart']
def form(V, opt, kind, f, v, e=None):
    def run(I): Spelling(V, I, kind, f, v, e).check('a syllable written %s with %s is read %s' % (f, KINDS[kind], v))
    q = RULE.get(f[0], 'ParseThCons')
    return vc.Task('%s %s %s' % (q, f, KINDS[kind]), run, [q] + FNS, **opt)
def tasks(P, tier):
    V, opt, helpers = parts(P, 'C20')
    return whole_tasks(P) + parsemain.pool_tasks(P, 'C20') + parsemain.parse_word_tasks(P, 'C20') + [form(V, opt, k, *x) for x in OPEN + CLOSED for k in range(3)] + helpers
def bounded(B):
    B.drive('drv_regular', [B.seed, B.scale(30000, 1000000, 300000), B.scale(5000, 100000, 50000), B.scale(10, 1, 1)], timeout=B.scale(120, 600, 200))
