"""The dictionary under contract.  Trusted: libdatrie (a state walks along a
stored word or refuses; a terminal state is the end of a stored word), stdio."""
from contracts.spec import *
import models
ASSUMPTIONS = ['libdatrie: a state walks along the characters of a stored word or refuses, a NUL step is possible exactly at the end of a stored word, data of a terminal state is the index stored; trie_fread reads a trie or reports failure',
               'stdio: fread delivers the bytes of the file and reports short reads; memory allocation in operator new succeeds',
               'data indexes in the trie lie inside the data bank and its strings are terminated (as generated, C14)']
Z, B_ = z3.IntSort(), z3.BoolSort()
def zi(x): return z3.IntVal(x) if isinstance(x, int) else x
TXT = z3.Function('text', Z, Z)
N, BEGIN = z3.Ints('textlen begin')
PRE = z3.Function('prefix', Z, B_)             # text[begin..k) is the beginning of a stored word
TERM = z3.Function('stored', Z, B_)            # text[begin..k) is a stored word
DATA = z3.Function('data', Z, Z)               # its data index
class StateV:
    """a trie state: the path text[begin..cur) was walked"""
    def __init__(self, cur): self.cur = cur
    def havoc_(self, I, name): return StateV(z3.Int(name + '.cur'))
def facts(I, k):
    """about the word that ends at k"""
    j = z3.Int('j!p')
    I.fact(z3.Implies(z3.And(TERM(k), k >= BEGIN), PRE(k)))
def prefixes(I):
    i, j = z3.Ints('i!p j!p')
    I.fact(z3.ForAll([i, j], z3.Implies(z3.And(BEGIN <= i, i <= j, PRE(j)), PRE(i)), patterns=[z3.MultiPattern(PRE(i), PRE(j))]))
    I.fact(z3.ForAll([i, j], z3.Implies(z3.And(BEGIN <= i, i < j, PRE(j)), TXT(i) != 0), patterns=[z3.MultiPattern(TXT(i), PRE(j))]))
def state(I, p):
    p = I.deref_lv(p)
    if not isinstance(p, PtrV) or p.lv is None: raise Unsupported('trie state')
    I.ob('%s: a trie state is used only while there is one' % I.where(), pnot(p.nul), 'safety')
    return p.lv, I.read(p.lv)
def root(I, this, args, node):
    t = I.deref_lv(args[0])
    I.ob('%s: search in a trie' % I.where(), pnot(t.nul) if isinstance(t, PtrV) else True, 'safety')
    # trie_root may fail for lack of memory
    return PtrV(I.alloc(StateV(BEGIN)), z3.Bool('nomem'))
def walk(I, this, args, node):
    lv, s = state(I, args[0]); c = zi(I.deref_lv(args[1]))
    ok = PRE(s.cur + 1)
    I.ob('%s: the next character of the text is walked' % I.where(), z3.And(s.cur < N, c == TXT(s.cur)), 'pre')
    I.ob('%s: a NUL is not walked' % I.where(), c != 0, 'pre')
    if I.guards or True:
        g = zb(pand(I.guards)) if I.guards else z3.BoolVal(True)
        I.write(lv, StateV(z3.simplify(z3.If(z3.And(g, ok), s.cur + 1, s.cur))) if I.guards else StateV(z3.If(ok, s.cur + 1, s.cur)))
    return z3.If(ok, z3.IntVal(1), z3.IntVal(0))
def walkable(I, this, args, node):
    lv, s = state(I, args[0]); c = I.deref_lv(args[1])
    if c == 0: return z3.If(TERM(s.cur), z3.IntVal(1), z3.IntVal(0))
    raise Unsupported('trie_state_is_walkable')
def data(I, this, args, node):
    lv, s = state(I, args[0])
    I.fact(z3.Implies(TERM(s.cur), DATA(s.cur) >= 0))
    return z3.If(TERM(s.cur), DATA(s.cur), z3.IntVal(-1))
HOOKS = {'trie_root': root, 'trie_state_walk': walk, 'trie_state_is_walkable': walkable, 'trie_state_get_data': data, 'trie_state_free': lambda I, this, args, node: None}

def match_tasks(P):
    J = z3.Int('k0')                          # an arbitrary end
    def text(I):
        I.fact(z3.And(N >= 0, N < 2**31 - 1))
        def at(j):
            v = TXT(zi(j)); I.fact(z3.And(v >= 0, v < 65536)); return v
        prefixes(I); I.fact(TXT(N) == 0)       # what operator[] gives at size()
        k = z3.Int('k!t'); I.fact(z3.ForAll([k], z3.Implies(z3.And(TERM(k), k >= BEGIN), PRE(k)), patterns=[TERM(k)]))
        I.fact(PRE(J) == PRE(J)); I.fact(TXT(0) >= 0)
        return I.alloc(SeqV('char16_t', N, at, None, (z3.Int('textid'), 0), 'u16'))
    def members(I, m):
        v = I.read(m)
        st = [x for x in v.f.values() if isinstance(x, PtrV) and x.lv is not None and isinstance(I.read(x.lv), StateV)]
        return v, (st[0] if st else None)
    def trie(I, d):
        """a dictionary, perhaps empty"""
        return I.alloc(I.fresh('Dict', d))
    def new(I, w, d):
        return construct(I, 'Match', lambda ps: len(ps) == 3, [w, BEGIN, PtrV(d, False)])
    def made(I):
        w = text(I)
        I.fact(z3.And(BEGIN >= 0, BEGIN <= N))
        m = new(I, w, trie(I, 'd'))
        I.ob('Match: starts where told', eqi(call(I, 'Match::getCurPos', m), BEGIN), 'post')
        v, s = members(I, m)
        if s is not None: I.ob('Match: state of the root', eqi(I.read(s.lv).cur, BEGIN), 'post')
        I.ob('Match: has a state when there is a dictionary', z3.Or(z3.Bool('notrie'), z3.Bool('nomem'), zb(pnot(s.nul)) if s is not None else z3.BoolVal(False)), 'post')
    def find(I):
        w = text(I)
        cur = z3.Int('cur')
        I.fact(z3.And(BEGIN >= 0, BEGIN <= cur, cur <= N))
        notrie = z3.Bool('notrie')
        m = new(I, w, trie(I, 'd'))
        # an arbitrary later moment of the same search
        v, s = members(I, m)
        if s is None or s.lv is None:
            I.ob('Match::findNext: finds nothing without a state', pnot(I.truth(call(I, 'Match::findNext', m, [], inline=True))), 'post'); return
        pos = [k for k, x in v.f.items() if not isinstance(x, (PtrV, RefV, SeqV)) and I.num(x) is not None and k not in P_const(P)]
        if 'mCurPos' not in v.f: raise Unsupported('position of the search')
        I.write(m, v.set('mCurPos', cur)); I.write(s.lv, StateV(cur))
        I.fact(z3.Implies(zb(pnot(s.nul)), PRE(cur)))
        r = zb(I.truth(call(I, 'Match::findNext', m, [], inline=True)))
        c = zi(call(I, 'Match::getCurPos', m))
        ok = zb(pnot(s.nul))
        I.ob('Match::findNext: the word found is a stored one', z3.Implies(r, z3.And(ok, c > cur, c <= N, TERM(c))), 'post')
        I.ob('Match::findNext: no shorter word is passed over', z3.Implies(z3.And(ok, J > cur, J <= N, z3.Or(z3.Not(r), J < c)), z3.Not(TERM(J))), 'post')
        I.ob('Match::findNext: the state keeps step with the position', z3.Implies(z3.And(ok, r), z3.And(I.read(s.lv).cur == c, PRE(c))), 'post')
    def P_const(P): return ()
    def loop(I, i, n):
        def inv(ctx):
            I = ctx.I
            v, s = members(I, ctx.fr.this)
            if s is None: return []
            c = zi(v.f['mCurPos']); st = I.read(s.lv)
            e = zi(ctx.at_entry(ctx.fr.this).f['mCurPos'])
            out = [('position', z3.And(c >= e, c <= N)), ('state', z3.And(zi(st.cur) == c, PRE(c))),
                   ('nothing passed over', z3.Implies(z3.And(J > e, J <= c), z3.Not(TERM(J)))),
                   ('nothing passed over before', z3.Implies(z3.And(J > e, J < c), z3.Not(TERM(J))))]
            for nm, lv in ctx.names0.items():   # flags that say a word has been found
                try: b = I.truth(I.deref_lv(lv)) if nm != 'this' else None
                except Exception: continue
                if not isinstance(b, bool) and not z3.is_expr(b): continue
                b = zb(b)
                for w, x in (('', b), ('!', z3.Not(b))):
                    out += [(nm + w + ' found', z3.Implies(x, z3.And(TERM(c), c > e))), (nm + w + ' not found', z3.Implies(x, z3.Implies(z3.And(J > e, J <= c), z3.Not(TERM(J)))))]
            return out
        return dict(inv=lambda ctx: [], cands=inv, measure=lambda ctx: N - zi(ctx.I.read(ctx.fr.this).f['mCurPos']))
    def get(I):
        w = text(I)
        cur = z3.Int('cur')
        I.fact(z3.And(BEGIN >= 0, BEGIN < cur, cur <= N, TERM(cur)))
        d = trie(I, 'd')
        m = new(I, w, d)
        v, s = members(I, m)
        if s is None: return
        I.fact(zb(pnot(s.nul)))
        I.write(m, v.set('mCurPos', cur)); I.write(s.lv, StateV(cur))
        I.ghost['dict'] = d
        r = call(I, 'Match::getData', m, [], inline=True)
        I.ob('Match::getData: the data stored with the word', eqi(models.zstr(I.deref_lv(r)), BANK(DATA(cur))), 'post')
    BANK = z3.Function('bankstr', Z, z3.StringSort())
    def bank(I, this, args, node):
        if not this.same(I.ghost['dict']): raise Unsupported('another dictionary')
        return BANK(zi(I.deref_lv(args[0])))
    def some(what, nul):
        return lambda I, name, idx: PtrV(I.alloc(OpaqueV(what, {})), z3.Bool(nul))
    fh = {'Trie *': some('Trie', 'notrie'), 'char *': some('char', 'nodata')}
    return [vc.Task('Match::Match', made, ['Match::Match', 'Match::getCurPos'], hooks=HOOKS, fresh_hooks=fh),
            vc.Task('Match::findNext', find, ['Match::findNext'], hooks=HOOKS, loopspecs={'Match::findNext': loop}, fresh_hooks=fh),
            vc.Task('Match::getData', get, ['Match::getData'], hooks=dict(HOOKS, **{'Dict::getData': bank}), fresh_hooks=fh)]

# ------------------------------------------------------------------ the file
from contracts import cmem
FB = z3.Function('file', Z, Z)                 # bytes of the dictionary file
FL, TP, IDX, LEN, BJ = z3.Ints('filelen triepos idx len bankpos')
MISSING, BADTRIE = z3.Bools('missing badtrie')
def be32(k):
    v = FB(k) * 2**24 + FB(k + 1) * 2**16 + FB(k + 2) * 2**8 + FB(k + 3)
    return z3.If(v >= 2**31, v - 2**32, v)
def fopen(I, this, a, node):
    mode = I.deref_lv(a[1])
    if not isinstance(mode, CStrV) or not str(mode.s).startswith('r') or '+' in str(mode.s): raise Unsupported('fopen mode')
    k = z3.Int('k!f')
    I.fact(z3.ForAll([k], z3.And(FB(k) >= 0, FB(k) < 256), patterns=[FB(k)])); I.fact(FL >= 0)
    def byte(k):
        I.fact(z3.And(FB(k) >= 0, FB(k) < 256)); return FB(k)
    return PtrV(I.alloc(cmem.FileV(byte, FL, z3.IntVal(0))), MISSING)
def trie_fread(I, this, a, node):
    lv, f = cmem.afile(I, a[0])
    I.fact(z3.And(TP >= zi(f.pos), TP <= FL))
    I.ob('%s: the trie is at the beginning of the file' % I.where(), zi(f.pos) == 0, 'pre')
    I.write(lv, f.at(TP))
    t = I.alloc(OpaqueV('Trie', {}))
    I.ghost['read'] = t
    return PtrV(t, BADTRIE)
def trie_free(I, this, a, node):
    p = I.deref_lv(a[0])
    I.ob('%s: an existing trie is released, once' % I.where(), pand([pnot(p.nul), p.lv is not None and not isinstance(I.read(p.lv), FreedV)]), 'safety')
    if p.lv is not None: I.write(p.lv, FreedV())
def open_tasks(P):
    hooks = dict(cmem.HOOKS, fopen=fopen, trie_fread=trie_fread, trie_free=trie_free)
    def anyptr(I, name, idx):
        lv = I.alloc(OpaqueV('Trie', {})); return PtrV(lv, z3.Bool(name + '.nul'))
    def anybuf(I, name, idx):
        n = z3.Int(name + '.n'); I.fact(n >= 0)
        lv = I.alloc(SeqV('char', n, lambda j: z3.Function(name + '[]', Z, Z)(zi(j)), kind='array'))
        I.ghost.setdefault('heap', {})[lv.loc] = 'array'
        return IterV(lv, 0, nul=z3.Bool(name + '.nul'))
    fh = {'Trie *': anyptr, 'char *': anybuf}
    def ptr(I, d): return I.deref_lv(call(I, 'Dict::trie', d))
    def opened(I, make=False):
        if make:
            d = construct(I, 'Dict', lambda ps: len(ps) == 1 and 'char' in ps[0], [CStrV(z3.String('path'))])
            if not isinstance(d, LV): d = I.alloc(d)
            return d, None
        d = I.alloc(I.fresh('Dict', 'd'))
        I.ghost['refute'] = REFUTE
        return d, zb(I.truth(call(I, 'Dict::open', d, [CStrV(z3.String('path'))], inline=True)))
    SIZE = be32(TP)
    REFUTE = [[TP == 50, z3.And([FB(50 + i) == b for i, b in enumerate(bs)]), FL == 54 + m] for bs, v in
              (((0, 0, 0, 9), 9), ((0, 0, 3, 129), 0x381), ((0, 5, 130, 7), 0x58207), ((9, 131, 2, 200), 0x98302c8)) for m in (v, v - 1)]
    GOOD = z3.And(z3.Not(MISSING), z3.Not(BADTRIE), TP + 4 <= FL, SIZE > 0, TP + 4 + SIZE <= FL)
    def bank(I, d):
        bs = [x for x in I.read(d).f.values() if isinstance(x, (IterV, PtrV)) and not (isinstance(x, PtrV) and x.lv is not None)]
        return bs
    def post(I, d, r, who):
        t = ptr(I, d)
        some = zb(pnot(t.nul)) if isinstance(t, PtrV) else None
        if some is None: raise Unsupported('trie of %s' % type(t).__name__)
        if r is None: r = some
        I.ob('%s: fails on a missing, cut or impossible file' % who, z3.Implies(z3.Or(MISSING, BADTRIE, TP + 4 > FL, SIZE < 0, TP + 4 + SIZE > FL), z3.Not(r)), 'post')
        I.ob('%s: succeeds on a whole file' % who, z3.Implies(GOOD, r), 'post')
        I.ob('%s: no dictionary after a failure' % who, z3.Implies(z3.Not(r), z3.Not(some)), 'post')
        if t.lv is not None: I.ob('%s: the trie read is the one searched' % who, z3.Implies(r, z3.And(some, z3.BoolVal('read' in I.ghost and t.lv.same(I.ghost['read']) and not isinstance(I.read(t.lv), FreedV)))), 'post')
        else: I.ob('%s: the trie read is the one searched' % who, z3.Not(r), 'post')
        return r
    def strings(I, d, r, who):
        """getData(idx) is the string at that index of the data bank"""
        base = TP + 4 + IDX
        k = z3.Int('k!s')
        if not I.branch(r): return
        I.assume(z3.And(IDX >= 0, LEN >= 0, IDX + LEN < SIZE, FB(base + LEN) == 0, SIZE > 0))
        I.fact(z3.ForAll([k], z3.Implies(z3.And(k >= base, k < base + LEN), FB(k) != 0), patterns=[FB(k)]))
        I.ghost['nuls'] = lambda I2, p: [IDX + LEN]
        J = z3.Int('J')
        def string_of(I2, p):
            L = cmem.strlen(I2, p, 'string')
            p, c, i = cmem.arr(I2, p, 'string')
            I2.ghost['str'] = (L, zi(c.at(i + J)), i)
            return z3.String('str!%d' % I2.newid())
        I.hooks = dict(I.hooks, string_of=string_of)
        s = call(I, 'Dict::getData', d, [IDX], inline=True)
        if 'str' not in I.ghost: raise Unsupported('data string made in another way')
        L, ch, i = I.ghost['str']
        I.ob('%s: data string has its length' % who, L == LEN, 'post')
        I.ob('%s: data string has its bytes' % who, z3.Implies(z3.And(J >= 0, J < LEN), ch == cmem.signed(I, FB(base + J))), 'post')
    def run_open(I):
        d, r = opened(I)
        r = post(I, d, r, 'Dict::open')
        strings(I, d, r, 'Dict::getData')
    def run_made(I):
        d, r = opened(I, True)
        post(I, d, r, 'Dict::Dict(path)')
    def run_empty(I):
        d = construct(I, 'Dict', lambda ps: len(ps) == 0, [])
        if not isinstance(d, LV): d = I.alloc(d)
        I.ob('Dict::Dict: empty', ptr(I, d).nul, 'post')
        call(I, 'Dict::close', d, [], inline=True)
        I.ob('Dict::close: empty', ptr(I, d).nul, 'post')
    def run_close(I):
        d = I.alloc(I.fresh('Dict', 'd'))
        call(I, 'Dict::close', d, [], inline=True)
        I.ob('Dict::close: empty', ptr(I, d).nul, 'post')
        call(I, 'Dict::close', d, [], inline=True)
    F = ['Dict::open', 'Dict::close', 'Dict::getData', 'Dict::trie', 'ReadInt32', 'ReadDataBank']
    return [vc.Task('Dict::open', run_open, F, hooks=hooks, fresh_hooks=fh), vc.Task('Dict::Dict(path)', run_made, F, hooks=hooks, fresh_hooks=fh),
            vc.Task('Dict::Dict', run_empty, F, hooks=hooks, fresh_hooks=fh), vc.Task('Dict::close', run_close, F, hooks=hooks, fresh_hooks=fh)]
