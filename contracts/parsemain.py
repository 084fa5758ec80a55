"""The analysis around the syllable rules: abbreviations, dictionary words,
runs of other characters, the state pool and the main loop."""
from contracts.parse import *
ASSUMPTIONS = [
    'libthai character predicates as tables; break positions reported by libthai lie within the text',
    'dictionary contents well formed: each listed reading ends at the length of its word (evaluated for the shipped lists)',
    'dictionary matching used through the contract of Match (discharged by C13)',
    'letter classes, sounds and the tone rule used through their contracts (discharged by C01)',
    'edge operations of PronunDAG used through their contracts (discharged by C04); a graph is represented by its sink, arrivals and alternatives',
    'text shorter than 20,000,000 UTF-16 units; UTF-8 to UTF-16 conversion trusted; input is well-formed UTF-8',
    'termination of the main loop: every state added is smaller in the measure 2*(N-pos)+(pos>=stop) (obligation); a multiset from which an element is replaced by finitely many smaller ones is exhausted (argument)']
def sylstart(c): return z3.Or(iscons(c), isld(c))
TERM = z3.Function('entry', Z, Z, B_)          # a dictionary word lies between two points of the text
NREAD = z3.Function('readings', Z, Z, Z)       # and has so many pronunciations

class MatchV:
    """a search of the dictionary from `begin`, having found the words that end up to `cur`"""
    def __init__(self, begin, cur): self.begin, self.cur = begin, cur
    def havoc_(self, I, name):
        c = z3.Int(name + '.cur'); I.fact(z3.And(c >= self.begin, c <= N))
        return MatchV(self.begin, c)
class MatchHook:
    def __call__(self, I, name, idx): raise Unsupported('search out of nothing')
    def construct(self, I, e, argn):
        if len(argn) != 3: raise Unsupported('search construction')
        lv, b, d = I.ev(argn[0]), I.rv(argn[1]), I.rv(argn[2])
        w = I.deref_lv(lv)
        if not isinstance(w, SeqV) or w.key is None or not w.key[0].eq(z3.Int('textid')): raise Unsupported('search in another text')
        b = zi(b)
        I.ob('%s: search starts inside the text' % I.where(), z3.And(b >= 0, b <= N), 'pre')
        I.ob('%s: search in a dictionary' % I.where(), pnot(d.nul) if isinstance(d, PtrV) else True, 'pre')
        return MatchV(b, b)
class DataV:
    def __init__(self, begin, cur): self.begin, self.cur = begin, cur
class ReadV:
    """the j-th pronunciation listed for the dictionary word from begin to cur, moved by shift"""
    def __init__(self, begin, cur, j, shift): self.begin, self.cur, self.j, self.shift = begin, cur, j, shift

def dags(I, names):
    """graphs among the variables"""
    out = []
    for nm, lv in names.items():
        try: v = I.deref_lv(lv)
        except Exception: continue
        if isinstance(v, DagV): out.append((nm, lv, v))
        elif isinstance(v, StructV) and isinstance(v.f.get('pronDAG'), DagV): out.append((nm, lv.f('pronDAG'), v.f['pronDAG']))
    return out
def ints(I, names):
    out = []
    for nm, lv in names.items():
        try: v = I.deref_lv(lv)
        except Exception: continue
        if I.num(v) is not None and not isinstance(v, IterV): out.append((nm, zi(v)))
        elif isinstance(v, StructV) and v.t == 'ParseState': out += [(nm + '.' + k, zi(v.f[k])) for k in ('pos', 'stopPos') if I.num(v.f.get(k)) is not None]
        elif isinstance(v, SeqV): out.append((nm + '.n', zi(v.n)))
        elif isinstance(v, MatchV): out.append((nm, v.cur))
    return out
def loops(V):
    """loop invariants in terms of what the variables hold, not of their names"""
    def cands(ctx):
        I, out = ctx.I, []
        vs = ints(I, ctx.names0)
        for nm, lv, d in dags(I, ctx.names0):
            s, chain, left = d.close(I)
            if left: s = z3.Int('nowhere!%d' % I.newid())
            try: d0 = ctx.at_entry(lv)
            except Exception: continue
            if not isinstance(d0, DagV): continue
            s0 = d0.close(I)[0]
            z0 = lambda x: zi(0) if x is None else zi(x)
            out += [(nm + '.sink', s == s0), (nm + '.empty', zb(d.empty) == zb(d0.empty)), (nm + '.done', z3.Or(zb(d.empty), s == N))]
            out += [('%s.sink=%s' % (nm, k), s == v) for k, v in vs]
            out += [(nm + '.altn', z0(d.altn) == 0), (nm + '.paltn', z0(d.paltn) == 0), (nm + '.alt', z3.Or(z0(d.altn) == 0, d.alt == s0 + 1))]
            if d.nin is not None and d0.nin is not None:
                out += [(nm + '.nin', z3.And(z0(d.altn) + d.nin == d0.nin + z0(d0.altn), d.nin >= 0))]
            cur = I.ghost.get('cur')
            if cur is not None: out.append((nm + '.palt', z3.Or(z0(d.paltn) == 0, d.palt == cur)))
            if hasattr(ctx, 'idx'):
                out.append((nm + '.n', z0(d.paltn) == ctx.idx - ctx.begin))
                if V.which == 'C12' and cur is not None: out.append((nm + '.hasr', z3.Implies(z3.And(ctx.idx > I.ghost['reading'], cur == I.ghost['key']), zb(d.hasr))))
        k0 = I.ghost.get('key')
        for nm, lv in ctx.names0.items():
            try: v = I.deref_lv(lv)
            except Exception: continue
            if isinstance(v, OpaqueV) and 'some' in v.d:
                out += [('%s.some=%s' % (nm, k), z3.And((x > 0) == zb(v.d['some']), x >= 0)) for k, x in vs]
                for n2, l2 in ctx.names0.items():
                    m = I.read(l2)
                    if isinstance(m, MatchV): out.append((nm + '.has', z3.Or(zb(v.d['has']), k0 <= m.begin, k0 > m.cur, z3.Not(V.applies(m.begin, k0)))))
        # scans: what was passed over
        i0, i = z3.Ints('i0 i')
        e = ints_at(ctx)
        if V.which in ('C20', 'C21', 'C22'):
            out += [(a + ' no full stop', x != 46) for a, x in vs]
            out += [('%s-%s' % (a, b), x - e[a] == y - e[b]) for a, x in vs for b, y in vs if a < b and a in e and b in e]
            for nm, lv in ctx.names0.items():
                v = I.read(lv)
                if isinstance(v, OpaqueV) and 'has' in v.d: out += [('%s.has or %s.has' % (nm, k), z3.Or(zb(v.d['has']), zb(d.has))) for k, lv, d in dags(I, ctx.names0)]
        for k, x in vs:
            if k in e:
                out += [(k + '.first', z3.Implies(x > e[k], iscons(TXT(e[k])))), (k + '.last', z3.Implies(x > e[k], istok(TXT(x - 1))))]
                if V.which == 'C11':
                    for nm, f in (('skip', lambda c: z3.Not(istok(c))), ('keep', istok), ('cons', iscons)) + ((('stops', lambda c: z3.Or(iscons(c), c == 46)),) if 'FindAbbr' in I.frames[-1].q else ()):
                        g = lambda i: z3.Implies(z3.And(i >= e[k], i < x), f(TXT(i)))
                        out.append(('%s.%s' % (k, nm), g(i0), z3.ForAll([i], g(i), patterns=[TXT(i)])))
        if 'FindAbbr' in I.frames[-1].q:   # the character read last
            for a, v in vs:
                for k, x in vs:
                    if k in e and a in e and k != a and '.' not in a + k: out += [('%s=text[%s-1]' % (a, k), z3.If(x == e[k], v == e[a], z3.And(x > e[k], v == TXT(x - 1)))), ('%s first %s' % (a, k), z3.Implies(v != e[a], iscons(TXT(e[k])))), ('%s stops %s' % (a, k), z3.Implies(x > e[k], z3.Or(iscons(TXT(e[k])), v == 46)))]
        for i, (a, x) in enumerate(vs):
            for b, y in vs[i + 1:]:
                if not x.eq(y): out += [('%s<=%s' % (a, b), x <= y), ('%s<=%s' % (b, a), y <= x)]
        return out
    def ints_at(ctx):
        s = ctx.I.store; ctx.I.store = ctx.entry
        try: return dict(ints(ctx.I, ctx.names0))
        finally: ctx.I.store = s
    def step(ctx, when):
        I = ctx.I
        if when == 'assume': return
        for nm, lv, d in dags(I, ctx.names0):
            if d.edges:
                s = V.edges(I, who(I), d)
                I.write(lv, d.but(edges=(), sink=s, empty=False))
    def lex(ctx):
        I = ctx.I
        for nm, lv in ctx.names0.items():
            try: v = I.read(lv)
            except Exception: continue
            if isinstance(v, MatchV): return (N - v.cur,)
        if I.frames[-1].q == 'ParseU16':
            ds = [d for nm, lv, d in dags(I, ctx.names0) if d.nin is not None and not (ctx.at_entry(lv).nin is not None and ctx.at_entry(lv).nin.eq(d.nin))]
            if len(ds) == 1: return (ds[0].nin,)
        return None
    base = dict(inv=lambda ctx: [], cands=cands, step=step, lex=lex)
    def pick(I, i, n):
        if any(c['kind'] == 'CXXMemberCallExpr' and 'pop' == c['inner'][0].get('name') for c in walk(n)): return dict(base, no_termination=True)
        return base
    return Everywhere(pick)
def walk(n):
    yield n
    for c in n.get('inner', []): yield from walk(c)

class Main(Env):
    def applies(self, b, k):
        """the dictionary word from b to k is to be used"""
        return z3.And(TERM(b, k), k <= self.stop, z3.Or(k == self.stop, sylstart(TXT(k))))
    def hooks(self):
        h = Env.hooks(self)
        h.update({'Match::findNext': self.find, 'Match::getCurPos': lambda I, this, args, node: I.read(this).cur,
                  'Match::getData': self.data, 'MakeSylStrings': self.split, 'SylString::shiftEndPos': self.shift, 'PronunDAG::addSylString': self.add_reading,
                  'DAG<Syl>::unionDAG': self.union, 'DAG<Syl>::inDegree': self.indegree, 'DAG<Syl>::inEdges': self.inedges, 'DAG<Syl>::removeEdge': self.remove,
                  'StatePool::pop': self.pop})
        return h
    def fresh_hooks(self):
        f = Env.fresh_hooks(self); f['Match'] = MatchHook()
        return f
    # ---- dictionary
    def find(self, I, this, args, node):
        m = I.read(this)
        if not isinstance(m, MatchV): return NotImplemented
        k = I.ghost.get('key')
        if not I.branch(z3.Bool('found!%d' % I.newid())):
            if k is not None: I.assume(z3.Implies(k > m.cur, z3.Not(TERM(m.begin, k))))
            return False
        c = z3.Int('cur!%d' % I.newid())
        I.assume(z3.And(c > m.cur, c <= N, TERM(m.begin, c)))
        if k is not None: I.assume(z3.Implies(z3.And(k > m.cur, k < c), z3.Not(TERM(m.begin, k))))
        I.write(this, MatchV(m.begin, c)); I.ghost['cur'] = c
        return True
    def data(self, I, this, args, node):
        m = I.read(this)
        if not isinstance(m, MatchV): return NotImplemented
        I.ob('%s: data of a word that was found' % I.where(), m.cur > m.begin, 'pre')
        return DataV(m.begin, m.cur)
    def split(self, I, this, args, node):
        d = I.deref_lv(args[0])
        if not isinstance(d, DataV): return NotImplemented
        n = NREAD(d.begin, d.cur); I.fact(n >= 1)
        return SeqV('SylString', n, lambda j: ReadV(d.begin, d.cur, zi(j), zi(0)), None, None, 'list')
    def shift(self, I, this, args, node):
        r = I.deref_lv(this)
        if not isinstance(r, ReadV): return NotImplemented
        I.write(this, ReadV(r.begin, r.cur, r.j, z3.simplify(r.shift + zi(I.deref_lv(args[0])))))
    def add_reading(self, I, this, args, node):
        d, a, r = I.deref_lv(this), zi(I.deref_lv(args[0])), I.deref_lv(args[1])
        if not isinstance(d, DagV) or not isinstance(r, ReadV): return NotImplemented
        if d.edges: raise Unsupported('readings mixed with edges')
        at = who(I)
        end = z3.simplify(r.cur - r.begin + r.shift)
        if self.which in ('C08', 'C12'):
            I.ob('%s: a reading starts where it was moved to' % at, r.shift == a, 'pre')
            I.ob('%s: a reading starts at the end of the graph' % at, a == zi(d.sink), 'pre')
            n0 = zi(0) if d.paltn is None else d.paltn
            I.ob('%s: readings side by side end together' % at, z3.Or(n0 == 0, d.palt == end), 'pre')
            hasr = d.hasr
            if self.which == 'C12': hasr = por([hasr, pand([r.cur == I.ghost['key'], r.j == I.ghost['reading'], r.shift == r.begin])])
            I.write(this, d.but(palt=end, paltn=n0 + 1, hasr=hasr))
        else: I.write(this, d.but(sink=end, empty=False))
    # ---- graph
    def add_edge(self, I, this, args, node):
        r = Env.add_edge(self, I, this, args, node)
        if r is not NotImplemented: self.settle(I, this)
        return r
    def indegree(self, I, this, args, node):
        d = I.deref_lv(this)
        if not isinstance(d, DagV): return NotImplemented
        x = zi(I.deref_lv(args[0]))
        if d.edges or d.gone or d.nin is None: raise Unsupported('in-degree')
        if I.entails(zb(x == zi(d.sink))): return d.nin
        raise Unsupported('in-degree of another node')
    def inedges(self, I, this, args, node):
        d = I.deref_lv(this)
        if not isinstance(d, DagV): return NotImplemented
        x = zi(I.deref_lv(args[0]))
        if d.edges or d.gone or d.nin is None or not I.entails(zb(x == zi(d.sink))): raise Unsupported('in-edges')
        if d.first is None:
            k = I.newid()
            u, l = z3.Int('from!%d' % k), I.fresh('Syl', 'label!%d' % k)
            I.fact(z3.Implies(u >= 0, u < zi(d.sink)))
            I.fact(zb(eqi(call(I, 'Syl::endPos', I.alloc(l)), zi(d.sink))))
            e = I.alloc(StructV('std::pair', {'first': x, 'second': StructV('DAGEdge<Syl>', {'target': u, 'edgeVal': l})}))
            d = d.but(first=(u, l, e)); I.write(this, d)
        c = I.alloc(InEdges(this))
        return StructV('std::pair', {'first': IterV(c, 0), 'second': IterV(c, d.nin)})
    def remove(self, I, this, args, node):
        d = I.deref_lv(this)
        if not isinstance(d, DagV): return NotImplemented
        u, x, l = zi(I.deref_lv(args[0])), zi(I.deref_lv(args[1])), I.deref_lv(args[2])
        if d.first is None or not d.first[0].eq(u) or not I.entails(zb(x == zi(d.sink))): raise Unsupported('removal of an edge')
        same = pand([eqi(a, b) for a, b in zip(acc(I, I.alloc(l)), acc(I, I.alloc(d.first[1])))])
        if not I.entails(zb(same)): raise Unsupported('removal of an edge')
        I.write(this, d.but(gone=d.gone + ((u, l),)))
        self.settle(I, this)
        return z3.Bool('removed!%d' % I.newid())
    def settle(self, I, this):
        """an edge into the sink led elsewhere"""
        d = I.deref_lv(this)
        for u, l in d.gone:
            for e in d.edges:
                if not e[0].eq(u): continue
                b, l2, at = e[1], e[2], who(I)
                if self.which == 'C08':
                    I.ob('%s: syllable ends where it says' % at, eqi(call(I, 'Syl::endPos', I.alloc(l2)), b), 'post')
                    I.ob('%s: positions advance' % at, z3.And(b > zi(d.sink), b <= N), 'post')
                    I.ob('%s: edges are led to the same place' % at, z3.Or(zi(0 if d.altn is None else d.altn) == 0, d.alt == b), 'post')
                lit = lambda v: call(I, 'Syl::isLiteral', I.alloc(v))
                if self.which in ('C09', 'C11'):
                    I.ob('%s: the syllable stays the same' % at, pand([eqi(a, b) for a, b in zip(acc(I, I.alloc(l)), acc(I, I.alloc(l2)))] +
                         [zb(I.truth(lit(l))) == zb(I.truth(lit(l2)))]), 'post')
                if self.which == 'C11':
                    I.ob('%s: only a full stop is passed over' % at, z3.And(b == zi(d.sink) + 1, TXT(zi(d.sink)) == 0x2e), 'post')
                    s1, s2 = [I.deref_lv(call(I, 'Syl::literal', I.alloc(v))) for v in (l, l2)]
                    j = z3.Int('j!%d' % I.newid())
                    I.ob('%s: literal text stays the same' % at, pand([eqi(s1.n, s2.n), pimp(z3.And(j >= 0, j < s1.n), eqi(s1.at(j), s2.at(j)))]), 'post')
                I.write(this, d.but(gone=(), edges=tuple(x for x in d.edges if x is not e), nin=d.nin - 1, altn=zi(0 if d.altn is None else d.altn) + 1, alt=b, first=None))
                return
    def union(self, I, this, args, node):
        d, o = I.deref_lv(this), I.deref_lv(args[0])
        if not isinstance(d, DagV) or not isinstance(o, DagV): return NotImplemented
        at = who(I)
        s1, s2 = [self.edges(I, at, x, True) for x in (d, o)]
        e1, e2 = [zb(x.empty) if not x.edges else z3.BoolVal(False) for x in (d, o)]
        if self.which in ('C08', 'C12'): I.ob('%s: graphs put together end at the same place' % at, z3.Or(e1, e2, s1 == s2), 'pre')
        I.write(this, DagV(z3.If(e1, s2, s1), z3.And(e1, e2), has=por([d.has, o.has]), old=por([d.old, o.old])))
    # ---- pool
    def pop(self, I, this, args, node):
        if not isinstance(I.read(this), OpaqueV): return NotImplemented
        if not I.branch(z3.Bool('popped!%d' % I.newid())): return False
        s = I.fresh('ParseState', 's!%d' % I.newid())
        pos, stop = zi(s.f['pos']), zi(s.f['stopPos'])
        self.popped(I, pos, stop)
        nin = z3.Int('nin!%d' % I.newid()); I.fact(z3.And(nin >= 0, (nin > 0) == (pos > 0)))
        I.write(args[0], s.set('pronDAG', DagV(pos, pos == 0, nin=nin)))
        I.ghost['ctx'] = c = ctx(pos, stop)
        I.ghost['dict'] = None
        if self.which == 'C12': c['rules'] = lambda at: self.rules(I, at)
        return True
    def rules(self, I, at):
        """spelling rules are used only where no dictionary word applies"""
        c = I.ghost['ctx']; nul = I.ghost['nodict']; r = I.ghost['dict']
        I.ob('%s: rules apply only where the dictionary has no word' % at, z3.Or(c['pos'] >= c['stop'], nul, r <= 0 if r is not None else z3.BoolVal(False)), 'pre')
class InEdges:
    """the edges into the sink of a graph"""
    def __init__(self, lv): self.lv = lv
    def iter_lv_(self, I, it, n):
        d = I.deref_lv(self.lv)
        if not isinstance(it.i, int) or it.i != 0: raise Unsupported('further in-edges')
        # an iterator stays valid until its edge is removed
        if d.first is None: raise Unsupported('edge used after its removal')
        I.ob('%s: there is an edge into the node' % I.where(), d.nin > 0, 'pre')
        return d.first[2]

class Rule:
    """a syllable rule: applied to the state at hand, at a letter it is for"""
    def __init__(self, V, given): self.V, self.given = V, given
    def applies(self, node): return ptypes(node)[1:] == ['ParseState', 'StatePool']
    def check(self, I, args, rule=True):
        V = self.V
        s0, stop, dag, _ = V.state(I, I.deref_lv(args[1]))
        same_state(I, s0, dag)
        c = I.ghost['ctx']
        if not (s0.eq(c['pos']) and stop.eq(c['stop'])): raise Unsupported('rule applied to another state')
        I.ob('%s: a rule is used inside a stretch' % who(I), z3.And(s0 >= 0, s0 < stop, stop <= N), 'pre')
        if 'rules' in c and rule: c['rules'](who(I))
        return s0, stop
    def apply(self, I, node, tu, this, args):
        s0, stop = self.check(I, args)
        I.ob('%s: a rule is used at a letter it is for' % who(I), self.given(TXT(s0)), 'pre')
class Abbr(Rule):
    def apply(self, I, node, tu, this, args):
        s0, stop = self.check(I, args)
        r = z3.Bool('abbr!%d' % I.newid())
        I.fact(Abbr.post(s0, r))
        return r
    @staticmethod
    def post(pos, r): return z3.Or(r, pos > 0, TXT(pos) != 0x2e)
class Except(Rule):
    def applies(self, node): return len(ptypes(node)) == 4 and ptypes(node)[1:3] == ['ParseState', 'StatePool']
    def apply(self, I, node, tu, this, args):
        s0, stop = self.check(I, args, False)
        d = I.deref_lv(args[3])
        I.ob('%s: search in a dictionary' % who(I), pnot(d.nul) if isinstance(d, PtrV) else True, 'pre')
        r = z3.Int('excepts!%d' % I.newid())
        I.ghost['dict'] = r
        return r
class Skip:
    def applies(self, node): return len(ptypes(node)) == 2 and ptypes(node)[1] == 'int'
    @staticmethod
    def post(V, a, r):
        i = z3.Int('i')
        out = [('goes forward inside the text', z3.And(r >= a, r <= N)), ('stops at a letter, a full stop or the end', z3.Or(r == N, istok(TXT(r))))]
        if V.which == 'C11': out.append(('passes over other characters only', lambda i: z3.Implies(z3.And(i >= a, i < r), z3.Not(istok(TXT(i))))))
        return out
    def __init__(self, V): self.V = V
    def apply(self, I, node, tu, this, args):
        a = zi(I.deref_lv(args[1]))
        I.ob('%s: characters skipped inside the text' % who(I), z3.And(a >= 0, a <= N), 'pre')
        r = z3.Int('skip!%d' % I.newid())
        give(I, self.post(self.V, a, r))
        return r
class Stop:
    def applies(self, node): return len(ptypes(node)) == 3 and ptypes(node)[1] == 'int'
    @staticmethod
    def post(V, a, r):
        out = [('goes forward inside the text', z3.And(r > a, r <= N)), ('ends with a letter or full stop', istok(TXT(r - 1)))]
        if V.which == 'C11': out.append(('passes over letters and full stops only', lambda i: z3.Implies(z3.And(i >= a, i < r), istok(TXT(i)))))
        return out
    def __init__(self, V): self.V = V
    def apply(self, I, node, tu, this, args):
        a = zi(I.deref_lv(args[1]))
        I.ob('%s: a stretch starts at a letter or full stop' % who(I), z3.And(a >= 0, a < N, istok(TXT(a))), 'pre')
        r = z3.Int('stop!%d' % I.newid())
        give(I, self.post(self.V, a, r))
        return r
def give(I, fs):
    for nm, f in fs:
        if callable(f):
            i = z3.Int('i')
            I.assume(z3.ForAll([i], f(i), patterns=[TXT(i)]))
        else: I.assume(f)
def check(I, q, fs):
    for nm, f in fs: I.ob('%s: %s' % (q, nm), f(z3.Int('i0')) if callable(f) else f, 'post')

def tasks(P, which):
    V = Main(P, which)
    def setup(I): I.quickms = 500
    opt = dict(hooks=V.hooks(), fresh_hooks=V.fresh_hooks(), setup=setup, loopspecs=loops(V))
    def start(I):
        w = V.text(I)
        s = I.fresh('ParseState', 's')
        pos, stop = zi(s.f['pos']), zi(s.f['stopPos'])
        I.fact(pos < stop)
        V.popped(I, pos, stop)
        V.stop = stop
        I.ghost['ctx'] = ctx(pos, stop)
        return w, I.alloc(s.set('pronDAG', DagV(pos, pos == 0))), pos, stop
    out = []
    def skip(I):
        w, a = V.text(I), z3.Int('start')
        I.fact(z3.And(a >= 0, a <= N))
        check(I, 'SkipNonThai', Skip.post(V, a, zi(call(I, 'SkipNonThai', None, [w, a], inline=True))))
    def brk(I):
        def at(j):
            v = z3.Function('brk', Z, Z)(zi(j)); I.fact(v <= N)
            return v
        n = z3.Int('nbrk'); I.fact(n >= 0)
        return I.alloc(SeqV('int', n, at, None, None, 'vector'))
    def stop(I):
        w, a = V.text(I), z3.Int('start')
        I.fact(z3.And(a >= 0, a < N, istok(TXT(a))))
        check(I, 'NextWordStop', Stop.post(V, a, zi(call(I, 'NextWordStop', None, [w, a, brk(I)], inline=True))))
    if which in ('C07', 'C08', 'C11'):
        out += [vc.Task('SkipNonThai', skip, ['SkipNonThai'], **opt), vc.Task('NextWordStop', stop, ['NextWordStop'], **opt)]
    def abbr(I):
        w, s, pos, stop = start(I)
        r = zb(I.truth(call(I, 'FindAbbr', None, [w, s, I.alloc(OpaqueV('pool', {}))], inline=True)))
        I.ob('FindAbbr: a full stop at the start is taken literally', Abbr.post(pos, r), 'post')
    if which != 'C12': out.append(vc.Task('FindAbbr', abbr, ['FindAbbr'], **opt))
    def excepts(I):
        w, s, pos, stop = start(I)
        k, j = z3.Ints('key reading')
        if which == 'C12':
            I.ghost['key'], I.ghost['reading'] = k, j
            I.fact(z3.And(k > pos, j >= 0, j < NREAD(pos, k)))
        pool = I.alloc(OpaqueV('pool', dict(some=False, has=False) if which == 'C12' else {}))
        r = call(I, 'FindExceptions', None, [w, s, pool, PtrV(I.alloc(OpaqueV('Dict', {})), False)], inline=True)
        if which == 'C12':
            p = I.read(pool)
            I.ob('FindExceptions: reports whether a word applies', eqi(zb(I.truth(r > 0 if I.num(r) is not None else r)), zb(p.d['some'])), 'post')
            I.ob('FindExceptions: every pronunciation of every word that applies is there', pimp(V.applies(pos, k), p.d['has']), 'post')
    if which in ('C07', 'C08', 'C11', 'C12'): out.append(vc.Task('FindExceptions', excepts, ['FindExceptions', 'IsSylStart'], **opt))
    C = {'SkipNonThai': Skip(V), 'NextWordStop': Stop(V), 'FindAbbr': Abbr(V, None), 'FindExceptions': Except(V, None)}
    for q, g in (('ParseThCons', iscons), ('ParseSaraE', lambda c: c == 0xe40), ('ParseOtherLV', lambda c: rng(c, (0xe41, 0xe44))), ('ParseRuLu', isru)): C[q] = Rule(V, g)
    def main(I):
        w = V.text(I)
        I.ghost['ctx'] = dict(pos=zi(0), stop=N, further=lambda q, st: True)
        nul = z3.Bool('nodict'); I.ghost['nodict'] = nul; I.ghost['dict'] = None
        d = call(I, 'ParseU16', None, [w, PtrV(I.alloc(OpaqueV('Dict', {})), nul), brk(I)], inline=True)
        d = I.deref_lv(d)
        if not isinstance(d, DagV): raise Unsupported('result of the analysis')
        if which == 'C08': I.ob('ParseU16: every pronunciation goes to the end of the text', z3.Or(zb(d.empty), V.edges(I, 'ParseU16', d, True) == N), 'post')
    out.append(vc.Task('ParseU16', main, ['ParseU16'], contracts=C, **opt))
    return out

# ---- the state pool
def pool_tasks(P, which):
    """real list of states; arbitrary states in it, in order"""
    V = Main(P, which)
    h = V.hooks()
    for k in ('StatePool::add', 'StatePool::pop'): h.pop(k)
    opt = dict(hooks=h, fresh_hooks={'PronunDAG': DagHook()})
    G = z3.Int('k0')                           # an arbitrary element
    def pool(I):
        p = I.fresh('StatePool', 'pool')
        ls = [k for k, v in p.f.items() if isinstance(v, SeqV)]
        if len(ls) != 1: raise Unsupported('members of the state pool')
        l = p.f[ls[0]]; seen = {}
        def at(j):
            j = zi(j)
            if j.get_id() in seen: return seen[j.get_id()][1]
            s = l.at(j); pos, stop = zi(s.f['pos']), zi(s.f['stopPos'])
            I.fact(z3.And(0 <= pos, pos <= stop, stop <= N))
            d = s.f['pronDAG']
            s = s.set('pronDAG', DagV(pos, pos == 0, old=j == G, has=False))
            seen[j.get_id()] = (j, s)
            return s
        I.fact(z3.And(N >= 0, N < 20000000))
        lv = I.alloc(p.set(ls[0], SeqV(l.et, l.n, at, None, None, l.kind)))
        return lv, lv.f(ls[0]), l.n
    def same(x, y, dag=True):
        return pand([eqi(x.f[k], y.f[k]) for k in ('pos', 'stopPos', 'isLinked')])
    def inorder(I, l, q):
        j = z3.Int('j0'); s = l.at(j)
        pos, stop, d, _ = V.state(I, s)
        sink, _, left = d.close(I)
        rng_ = z3.And(j >= 0, j < zi(l.n))
        I.ob('%s: every state of the pool stays in order' % q, z3.Implies(rng_, z3.And(0 <= pos, pos <= stop, stop <= N, sink == pos)), 'post')
    def add(I):
        this, lv, n = pool(I)
        I.fact(z3.And(G >= 0, G < n))
        s = I.fresh('ParseState', 's'); pos, stop = zi(s.f['pos']), zi(s.f['stopPos'])
        I.fact(z3.And(0 <= pos, pos <= stop, stop <= N))
        s = s.set('pronDAG', DagV(pos, pos == 0, has=True, old=False))
        old = I.read(lv).at(G)
        call(I, 'StatePool::add', this, [I.alloc(s)], inline=True)
        l = I.read(lv)
        inorder(I, l, 'StatePool::add')
        # where the state went: the place of an iterator, or the end
        spots = {}
        for v in list(I.store.values()):
            if isinstance(v, IterV) and v.c.same(lv):
                for x in (zi(v.i), zi(v.i) - 1): spots[x.get_id()] = x
        x = zi(l.n) - 1; spots[x.get_id()] = x
        def there(x):
            e = l.at(x); d = e.f['pronDAG']
            return pand([x >= 0, x < zi(l.n), eqi(e.f['pos'], pos), eqi(zb(e.f['isLinked']), zb(s.f['isLinked'])), d.has])
        I.ob('StatePool::add: the state or its graph is in the pool', por([there(x) for x in spots.values()]), 'post')
        def kept(x):
            e = l.at(x)
            return pand([x < zi(l.n), same(e, old), e.f['pronDAG'].old])
        I.ob('StatePool::add: no other state is lost', por([kept(G), kept(G + 1)]), 'post')
        I.ob('StatePool::add: the pool grows by one at most', z3.And(zi(l.n) >= n, zi(l.n) <= n + 1), 'post')
    def pop(I):
        this, lv, n = pool(I)
        out = I.alloc(I.fresh('ParseState', 'out').set('pronDAG', DagV(z3.Int('osink'), z3.Bool('oempty'))))
        l0 = I.read(lv)
        r = zb(I.truth(call(I, 'StatePool::pop', this, [out], inline=True)))
        l, s = I.read(lv), I.read(out)
        I.ob('StatePool::pop: fails only when the pool is empty', eqi(r, n > 0), 'post')
        if not I.branch(n > 0): return
        pos, stop, d, _ = V.state(I, s)
        I.ob('StatePool::pop: the state is in order', z3.And(0 <= pos, pos <= stop, stop <= N, zi(d.close(I)[0]) == pos), 'post')
        # the state was in the pool; the others remain
        I.ob('StatePool::pop: one state is taken', eqi(l.n, n - 1), 'post')
        I.fact(z3.And(G >= 0, G < n))
        old = l0.at(G)
        def kept(x): return pand([x >= 0, x < zi(l.n), same(l.at(x), old), l.at(x).f['pronDAG'].old])
        I.ob('StatePool::pop: no other state is lost', por([kept(G), kept(G - 1), pand([same(s, old), d.old])]), 'post')
    return [vc.Task('StatePool::add', add, ['StatePool::add'], loopspecs=Everywhere(lambda I, i, n: dict(inv=lambda ctx: [], cands=scan)), **opt), vc.Task('StatePool::pop', pop, ['StatePool::pop'], **opt)]
def scan(ctx): return []

# ---- dictionary readings
def reading_tasks(P, which):
    from contracts import c03
    out = []
    def split(I):
        J = c03.pieces(I, ';')
        l = I.deref_lv(call(I, 'MakeSylStrings', None, [I.alloc(J)], inline=True))
        if not isinstance(l, SeqV): raise Unsupported('result of MakeSylStrings')
        I.ob('MakeSylStrings: one reading per piece', eqv(l.n, J.m), 'post')
        I.ob('MakeSylStrings: each reading is made from its own piece, in order', c03.tags(l), 'post')
    def found(ctx):
        ls = [v for v in (ctx.I.deref_lv(lv) for nm, lv in ctx.fr.names.items()) if isinstance(v, SeqV) and v.et == 'SylString']
        if len(ls) != 1: raise Unsupported('list of readings')
        return ls[0]
    out.append(vc.Task('MakeSylStrings', split, ['MakeSylStrings'], hooks={'SylString::SylString': c03.tagger('SylString')}, fresh_hooks={'SylString': c03.fresh_tag('SylString')},
                       loopspecs={'MakeSylStrings': lambda I, i, n: c03.seq_loops(I, i, n, found)}))
    def cont(I, s): return I.read(call(I, 'SylString::begin', s, pred=lambda n: 'const' in n['type']['qualType']).c)
    def lits(I, x, y):
        a, b = [I.deref_lv(call(I, 'Syl::literal', I.alloc(v))) for v in (x, y)]
        j = z3.Int('jl')
        return [eqi(a.n, b.n), pimp(z3.And(j >= 0, j < a.n), eqi(a.at(j), b.at(j)))]
    def samesyl(I, x, y, pos=False):
        p = list(zip(acc(I, I.alloc(x)), acc(I, I.alloc(y))))
        return pand([eqi(a, b) for a, b in p] + lits(I, x, y))
    def end(I, x): return zi(call(I, 'Syl::endPos', I.alloc(x)))
    j0, off = z3.Ints('j0 off')
    def moved(I, new, old):
        e = end(I, old)
        return pand([samesyl(I, new, old), eqi(end(I, new), z3.If(e < 0, e - 101 * off, e + off))])
    def shift(I):
        s = I.alloc(I.fresh('SylString', 'r'))
        c0 = cont(I, s)
        I.ghost['c0'] = c0
        call(I, 'SylString::shiftEndPos', s, [off], inline=True)
        c = cont(I, s)
        I.ob('SylString::shiftEndPos: number of syllables', eqi(c.n, c0.n), 'post')
        if not I.branch(z3.And(j0 >= 0, j0 < zi(c0.n))): return
        I.ob('SylString::shiftEndPos: every end and intermediate point is moved', moved(I, c.at(j0), c0.at(j0)), 'post')
    def shloop(I, i, n):
        def inv(ctx):
            I = ctx.I
            c = I.read(ctx.cont) if getattr(ctx, 'cont', None) is not None else None
            c0 = I.ghost.get('c0')
            its = None
            if c is None:
                this = [v for v in (I.deref_lv(lv) for lv in ctx.fr.names.values()) if isinstance(v, IterV)]
                if not this or not ctx.fr.this: return []
                c, idx = I.read(this[0].c), zi(this[0].i)
            else: idx = zi(ctx.idx)
            g = z3.And(j0 >= 0, j0 < zi(c0.n))
            n, o = c.at(j0), c0.at(j0)
            return [('length', eqi(c.n, c0.n)), ('done', z3.Implies(z3.And(g, j0 < idx), zb(moved(I, n, o)))),
                    ('rest', z3.Implies(z3.And(g, j0 >= idx), zb(pand([samesyl(I, n, o), eqi(end(I, n), end(I, o))]))))]
        return dict(inv=inv, allow_container_mod=True)
    out.append(vc.Task('SylString::shiftEndPos', shift, ['SylString::shiftEndPos', 'Syl::setEndPos'], loopspecs={'SylString::shiftEndPos': shloop}))
    class Path(Main):
        def edges(self, I, at, dag, final=False):
            sink, chain, left = dag.close(I)
            if left: raise Unsupported('edges that do not continue the graph')
            if len(chain) > 1: raise Unsupported('several edges for a syllable')
            for a, b, l in chain:
                I.ob('PronunDAG::addSylString: syllable ends where it says', eqi(end(I, l), b), 'post')
                I.ob('PronunDAG::addSylString: syllables in order', pand([samesyl(I, l, I.ghost['elem']), eqi(end(I, l), end(I, I.ghost['elem']))]), 'post')
            return sink
    V = Path(P, 'C12')
    h = V.hooks()
    for k in ('SylString::shiftEndPos', 'PronunDAG::addSylString'): h.pop(k)
    L = loops(V)
    def pathloop(I, i, n):
        sp = dict(L.pick(I, i, n))
        st0 = sp['step']
        def step(ctx, when):
            if getattr(ctx, 'cont', None) is None: raise Unsupported('loop over the syllables')
            if when == 'assume': I.ghost['idx0'] = ctx.idx
            if when == 'preserved': I.ghost['elem'] = I.read(ctx.cont).at(I.ghost['idx0'])
            if when == 'preserved':
                ds = dags(I, {'this': ctx.fr.this})
                if not ds or len(ds[0][2].edges) != 1: raise Unsupported('one edge for each syllable')
            ctx.names0['this'] = ctx.fr.this
            st0(ctx, when)
        def cands(ctx):
            ctx.names0['this'] = ctx.fr.this
            c = I.read(ctx.cont); k = ctx.idx
            d = I.deref_lv(ctx.fr.this)
            s0 = ctx.at_entry(ctx.fr.this).close(I)[0]
            last = d.close(I)[0] == (z3.If(zi(k) > 0, end(I, c.at(z3.simplify(zi(k) - 1))), s0) if not (isinstance(k, int) and k == 0) else s0)
            return sp['cands'](ctx) + [('last', last)]
        return dict(sp, step=step, cands=cands)
    def path(I):
        pos = z3.Int('pos')
        g = I.alloc(DagV(pos, pos == 0)); s = I.alloc(I.fresh('SylString', 'r'))
        call(I, 'PronunDAG::addSylString', g, [pos, s], inline=True)
        c = cont(I, s); d = I.read(g)
        I.ob('PronunDAG::addSylString: a way from the place to the end of the last syllable', zb(eqi(zi(d.close(I)[0]), z3.If(zi(c.n) > 0, end(I, c.at(zi(c.n) - 1)), pos))), 'post')
    out.append(vc.Task('PronunDAG::addSylString', path, ['PronunDAG::addSylString'], hooks=h, fresh_hooks={'PronunDAG': DagHook()}, loopspecs=Everywhere(pathloop)))
    return out

# ---- literals as printed
def literal_tasks(P):
    from contracts import render
    out = []
    for nt in render.NOTATIONS:
        def run(I, nt=nt):
            n, k = z3.Ints('n litid'); I.fact(z3.And(n > 0, k >= 0))
            C = z3.Function('lit', Z, Z)
            lit = SeqV('char16_t', n, lambda j: C(zi(j)), None, (k, 0), 'u16')
            p = z3.Int('endPos')
            s = construct(I, 'Syl', lambda ps: len(ps) == 2 and ps[0].split()[-1] == 'int', [p, lit])
            r = render.output(I, nt, s)
            u = models.to_bytes(I, lit)
            want = z3.Concat(z3.StringVal('('), u, z3.StringVal(')'))
            if nt == 'Raw': want = z3.Concat(want, z3.StringVal('@'), models.zstr(models.int_str(p)))
            I.ob('%s: a literal is printed between parentheses in the same characters' % nt, models.zstr(r) == want, 'post')
            I.ob('%s: a literal keeps its characters and place' % nt, pand([eqi(call(I, 'Syl::endPos', s), p), I.truth(call(I, 'Syl::isLiteral', s))]), 'post')
        out.append(vc.Task(nt + 'SylOutput::output of a literal', run, [nt + 'SylOutput::output', 'ISylOutput::outputLiteral']))
    return out

# ---- word breaks and the entry point
def entry_tasks(P, which):
    V = Main(P, which)
    BRK = z3.Function('libbrk', Z, Z)
    def lib(I, this, args, node):
        a = [I.deref_lv(x) for x in args]
        if not isinstance(a[2], IterV): raise Unsupported('buffer for break positions')
        buf = I.read(a[2].c); n = zi(a[3])
        I.ob('FindBreaks: room for the break positions asked for', z3.And(zi(a[2].i) == 0, n <= zi(buf.n)), 'pre')
        I.ob('FindBreaks: the text given is the whole text', eqi(I.ghost['wlen'](a[1]), N), 'pre')
        r = z3.Int('nbrk!%d' % I.newid()); I.fact(z3.And(r >= 0, z3.Or(r <= n, r == 0)))
        def at(j):
            j = zi(j); I.fact(z3.And(BRK(j) > 0, BRK(j) <= N))
            return ite(z3.And(j < r), BRK(j), buf.at(j))
        I.write(a[2].c, buf.clone(conc=None, atf=at))
        return r
    def run(I):
        w = V.text(I)
        I.ghost['wlen'] = lambda v: I.num(v.n) if isinstance(v, SeqV) else zi(I.read(v.c).n) if isinstance(v, IterV) else z3.Length(models.zstr(v.s if isinstance(v, CStrV) else v))
        nul = z3.Bool('nobrk')
        r = I.deref_lv(call(I, 'FindBreaks', None, [w, PtrV(I.alloc(OpaqueV('ThBrk', {})), nul)], inline=True))
        if not isinstance(r, SeqV): raise Unsupported('break positions')
        j = z3.Int('j0')
        if r.conc == []: return
        I.ob('FindBreaks: break positions lie inside the text', pimp(z3.And(j >= 0, j < zi(r.n)), z3.And(zi(r.at(j)) <= N)), 'post')
    return [vc.Task('FindBreaks', run, ['FindBreaks'], hooks={'th_brk_wc_find_breaks': lib}, loopspecs=Everywhere(lambda I, i, n: dict(inv=lambda ctx: [], cands=grow)))]
def grow(ctx):
    """a copy that is being made"""
    out = []
    for nm, lv in ctx.names0.items():
        try: v = ctx.I.deref_lv(lv)
        except Exception: continue
        if isinstance(v, SeqV) and hasattr(ctx, 'idx'): out.append((nm, zi(v.n) == zi(ctx.idx)))
        elif isz(v) and z3.is_string(v) and hasattr(ctx, 'idx'): out.append((nm, z3.Length(v) == zi(ctx.idx)))
    return out
def parse_word_tasks(P, which):
    """Parser::parseWord analyses the whole text with the dictionary loaded and the breaks found"""
    V = Main(P, which)
    class Whole:
        def applies(self, node): return len(ptypes(node)) == 3
        def apply(self, I, node, tu, this, args):
            w, d, b = [I.deref_lv(x) for x in args]
            ok = isinstance(w, SeqV) and w.key is not None and w.key[0].eq(z3.Int('textid')) and w.n.eq(N)
            I.ob('Parser::parseWord: the whole text is analysed', ok, 'post')
            I.ob('Parser::parseWord: with the dictionary loaded', I.ghost['isdict'](d), 'post')
            I.ob('Parser::parseWord: with the break positions of the text', isinstance(b, SeqV) and b.key == 'breaks', 'post')
            I.ghost['done'] = True
            return DagV(z3.Int('rsink'), z3.Bool('rempty'), has=True)
    class Breaks:
        def applies(self, node): return len(ptypes(node)) == 2
        def apply(self, I, node, tu, this, args):
            w = I.deref_lv(args[0])
            if not (isinstance(w, SeqV) and w.key is not None and w.key[0].eq(z3.Int('textid')) and w.n.eq(N)): raise Unsupported('breaks of another text')
            n = z3.Int('nbrk'); I.fact(n >= 0)
            return SeqV('int', n, lambda j: z3.Function('brk', Z, Z)(zi(j)), None, 'breaks', 'vector')
    def run(I):
        w = V.text(I)
        I.hooks = dict(I.hooks, from_bytes=lambda I2, s: I.read(w))
        I.ghost['isdict'] = lambda d: isinstance(d, PtrV) and (d.lv is not None and d.lv.same(dic) and zb(d.nul).eq(nul))
        nul, dic = z3.Bool('nodict'), I.alloc(OpaqueV('Dict', {}))
        p = StructV('Parser', {'mExceptDict': PtrV(dic, nul), 'mThBrk': PtrV(I.alloc(OpaqueV('ThBrk', {})), z3.Bool('nobrk'))})
        if set(x['name'] for x in P.records['Parser'].fields) != set(p.f): raise Unsupported('members of the parser')
        d = I.deref_lv(call(I, 'Parser::parseWord', I.alloc(p), [I.alloc(z3.String('word'))], inline=True))
        I.ob('Parser::parseWord: the analysis is the result', isinstance(d, DagV) and d.has is True, 'post')
    return [vc.Task('Parser::parseWord', run, ['Parser::parseWord'], contracts={'ParseU16': Whole(), 'FindBreaks': Breaks()}, fresh_hooks={'PronunDAG': DagHook()})]
def data_tasks(P):
    """the shipped lists satisfy what FindExceptions is given: every reading ends where its word does"""
    import glob, os, re, front
    def run(I):
        for f in sorted(glob.glob(os.path.join(front.REPO, 'data', '*.tsv'))):
            bad = []
            for l in open(f, encoding='utf8'):
                w, _, rs = l.rstrip('\n').partition('\t')
                for r in rs.split(';'):
                    m = [re.fullmatch(r'.{4}\d@(-?\d+)', s) for s in r.split(',')]
                    if not all(m): bad.append('%s: %s is no reading' % (w, r)); continue
                    ps = [int(x[1]) for x in m if int(x[1]) > 0]
                    if not ps or any(a >= b for a, b in zip(ps, ps[1:])) or int(m[-1][1]) != len(w): bad.append('%s: positions of %s' % (w, r))
            I.ob('%s: every reading advances and ends with its word%s' % (os.path.basename(f), ''.join(' -- ' + b for b in bad[:3])), not bad, 'data')
    return [vc.Task('shipped exception lists', run)]
