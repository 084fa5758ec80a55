"""Contracts for the dictionary generator (C14): dict/gen-lookup-dict.c on a
model of the bytes of its input.  A line starts at p, has its first TAB at T(p)
and ends before E(p); the k-th character of its word starts at POS(p, k)."""
from contracts.spec import *
from contracts import cmem
from contracts.cmem import zi, FileV, afile, arr, put, signed
import models
Z, B_ = z3.IntSort(), z3.BoolSort()
FB, CP, NXT = z3.Function('file', Z, Z), z3.Function('codepoint', Z, Z), z3.Function('nextchar', Z, Z)
T, E, NEXT, CNT = z3.Function('tab', Z, Z), z3.Function('eol', Z, Z), z3.Function('nextline', Z, Z), z3.Function('count', Z, Z)
POS = z3.Function('charpos', Z, Z, Z)
FL, J, K, Q = z3.Ints('filelen J K Q')
ASSUMPTIONS = ['input list is well-formed: lines of at most 254 bytes without NUL, each with a TAB, word in UTF-8, less than 2^29 bytes in all',
               'malloc of the line, bank and trie does not fail; writing to the output does not fail',
               'contracts of libc (fgets, strlen, strchr, strcpy, strncpy, realloc, free, fwrite) and libdatrie (trie_store records the index for the word, trie_fwrite writes it) are trusted']
def dlen(p): return E(p) - T(p) - 1                       # length of the data field
def world(I):
    k, p, j = z3.Ints('k! p! j!')
    I.fact(z3.And(FL >= 0, FL < 2**29))
    I.fact(z3.ForAll([k], z3.And(FB(k) > 0, FB(k) < 256), patterns=[FB(k)]))
def byte(I):
    def f(k):
        I.fact(z3.And(FB(k) > 0, FB(k) < 256)); return FB(k)
    return f
def line(I, p):
    """facts about the well-formed line starting at p"""
    j, k = z3.Ints('j!l k!l')
    I.fact(z3.And(p >= 0, p < FL, p <= T(p), T(p) < E(p), E(p) <= FL, E(p) - p <= 254, FB(T(p)) == 9, z3.Or(E(p) == FL, FB(E(p)) == 10)))
    I.fact(z3.ForAll([k], z3.Implies(z3.And(k >= p, k < E(p)), FB(k) != 10), patterns=[FB(k)]))
    I.fact(z3.ForAll([k], z3.Implies(z3.And(k >= p, k < T(p)), FB(k) != 9), patterns=[FB(k)]))
    I.fact(NEXT(p) == z3.If(E(p) < FL, E(p) + 1, E(p)))
    I.fact(z3.And(POS(p, 0) == p, CNT(p) >= 0, POS(p, CNT(p)) == T(p)))
    for x in (z3.IntVal(0), J, CNT(p)): char(I, p, x)
def char(I, p, j):
    """facts about the j-th character of the word"""
    I.fact(z3.Implies(z3.And(j >= 0, j <= CNT(p)), z3.And(POS(p, j) <= T(p), POS(p, j) >= p + j, (POS(p, j) == T(p)) == (j == CNT(p)))))
    I.fact(z3.Implies(z3.And(j >= 0, j < CNT(p)), z3.And(POS(p, j + 1) == NXT(POS(p, j)), NXT(POS(p, j)) <= T(p))))
    k = POS(p, j)
    cont = lambda i: z3.And(FB(k + i) >= 128, FB(k + i) < 192)
    v = lambda i: FB(k + i) - 128
    I.fact(z3.Implies(z3.And(j >= 0, j < CNT(p)), z3.Or(z3.And(FB(k) < 128, NXT(k) == k + 1, CP(k) == FB(k)),
                                z3.And(FB(k) >= 192, FB(k) < 224, cont(1), NXT(k) == k + 2, CP(k) == (FB(k) - 192) * 64 + v(1)),
                                z3.And(FB(k) >= 224, FB(k) < 240, cont(1), cont(2), NXT(k) == k + 3, CP(k) == (FB(k) - 224) * 4096 + v(1) * 64 + v(2)),
                                z3.And(FB(k) >= 240, FB(k) < 248, cont(1), cont(2), cont(3), NXT(k) == k + 4, CP(k) == (FB(k) - 240) * 262144 + v(1) * 4096 + v(2) * 64 + v(3)))))
def fgets(I, this, a, node):
    """one line (or what of it fits), terminated"""
    n = zi(I.deref_lv(a[1]))
    lv, f = afile(I, a[2])
    p, c, i = arr(I, a[0], 'fgets')
    I.ob('%s: fgets stays inside its buffer' % I.where(), z3.And(n >= 1, i >= 0, i + n <= zi(c.n)), 'safety')
    pos = zi(f.pos)
    if not I.branch(pos < FL): return PtrV(None)
    line(I, pos)
    full = NEXT(pos) - pos
    m = z3.If(full < n, full, n - 1)
    b = byte(I)
    put(I, p, c, i, m + 1, lambda j: ite(j < m, signed(I, b(pos + j)), 0))
    I.write(lv, f.at(pos + m))
    I.ghost['fgets'] = (p, m)
    return p
def ptr(I, t): return PtrV(I.alloc(OpaqueV(t, {})), False)
def malloc(I, this, a, node): return models_raw(I.deref_lv(a[0]))
def models_raw(n): return RawV(n, False)
def array(I, et, n, name):
    return IterV(I.alloc(SeqV(et, n, lambda j: I.fresh(et, name + '[]', (zi(j),)), kind='array')), 0)
def iters(I, names):
    """(name, element type, index) of pointers into arrays, numbers as (name, None, value)"""
    out = []
    for nm, lv in names.items():
        try: v = I.deref_lv(lv)
        except Exception: continue
        if isinstance(v, IterV):
            c = I.read(v.c)
            if isinstance(c, SeqV): out.append((nm, I.P.typedefs.get(c.et, c.et), zi(v.i)))
        elif I.num(v) is not None: out.append((nm, None, zi(v)))
    return out
CHARS, WORDS = ('char', 'unsigned char', 'signed char'), ('unsigned int', 'int', 'unsigned long')
def read_tasks(P):
    def run(I):
        world(I)
        W, D, pos = z3.Ints('wordMax dataMax pos')
        I.fact(z3.And(W >= 256, W < 2**20, D >= 256, D < 2**20, pos >= 0, pos <= FL))
        wd, dt = array(I, 'unsigned int', W, 'word'), array(I, 'char', D, 'data')
        f = I.alloc(FileV(byte(I), FL, pos))
        I.ghost['word'] = wd
        I.ghost['nuls'] = lambda I2, p: [E(pos) - pos, NEXT(pos) - pos, T(pos) - pos]
        I.ghost['track'] = [T(pos) - pos]
        r = zi(I.deref_lv(call(I, 'ReadInput', None, [wd, W, dt, D, PtrV(f, False)], inline=True)))
        if not I.branch(pos < FL):
            I.ob('ReadInput: reports the end of the list', r != 0, 'post'); return
        line(I, pos)
        w, d = I.read(wd.c), I.read(dt.c)
        I.ob('ReadInput: takes every entry', r == 0, 'post')
        I.ob('ReadInput: word decoded', z3.Implies(z3.And(J >= 0, J < CNT(pos)), zi(w.at(J)) == CP(POS(pos, J))), 'post')
        I.ob('ReadInput: word terminated', zi(w.at(CNT(pos))) == 0, 'post')
        I.ob('ReadInput: data taken', z3.Implies(z3.And(K >= 0, K < dlen(pos)), zi(d.at(K)) == signed(I, FB(T(pos) + 1 + K))), 'post')
        I.ob('ReadInput: data terminated', zi(d.at(dlen(pos))) == 0, 'post')
        I.ob('ReadInput: goes on to the next line', zi(I.read(f).pos) == NEXT(pos), 'post')
    def loop(I, i, n):
        pos = z3.Int('pos')
        def cands(ctx):
            I, out = ctx.I, []
            vs = iters(I, ctx.names0)
            w = I.read(I.ghost['word'].c)
            for a, ta, x in vs:
                if ta not in CHARS: char(I, pos, x)
                if ta in CHARS: out += [(a + ' in word', z3.And(x >= 0, x <= T(pos) - pos))]
                for b, tb, y in vs:
                    if a != b and ta in CHARS and tb not in CHARS:
                        out += [('%s at character %s' % (a, b), z3.And(POS(pos, y) == pos + x, y >= 0, y <= CNT(pos)))]
                    elif a != b and ta is None and tb is None:
                        out += [('%s at character %s' % (a, b), z3.And(POS(pos, y) == pos + x, y >= 0, y <= CNT(pos)))]
                if ta not in CHARS: out += [(a + ' decoded', z3.Implies(z3.And(J >= 0, J < x), zi(w.at(J)) == CP(POS(pos, J))))]
            return out
        return dict(inv=lambda ctx: [], cands=cands, lex=lambda ctx: None)
    hooks = dict(cmem.HOOKS, fgets=fgets, malloc=malloc)
    return [vc.Task('ReadInput', run, ['ReadInput', 'GetUTF8'], hooks=hooks, loopspecs={'ReadInput': loop, 'GetUTF8': lambda I, i, n: dict(unroll=8)}, timeout=20000)]

# ------------------------------------------------------------------ the data bank and the main loop
class OutV:
    """the output: whether the trie has been written, bytes after it"""
    def __init__(self, tries, n, at): self.tries, self.n, self.at = tries, n, at
class StoreV:
    """what has been stored for the tracked line: how often, at which index"""
    def __init__(self, n, idx): self.n, self.idx = n, idx
    def havoc_(self, I, name): return StoreV(z3.Int(name + '.n'), z3.Int(name + '.idx'))
class Read:
    """contract of ReadInput, from its task"""
    def applies(self, node): return True
    def apply(self, I, node, tu, this, a):
        W, D = zi(I.deref_lv(a[1])), zi(I.deref_lv(a[3]))
        w, wc, wi = arr(I, a[0], 'ReadInput'); d, dc, di = arr(I, a[2], 'ReadInput')
        lv, f = afile(I, a[4])
        I.ob('GenDict: room for a line', z3.And(W >= 256, D >= 256, wi == 0, di == 0, W <= zi(wc.n), D <= zi(dc.n)), 'pre')
        pos = zi(f.pos)
        I.ghost['line'] = None
        if not I.branch(pos < FL): return 1
        line(I, pos)
        I.fact(z3.Or(Q <= pos, Q >= NEXT(pos)))              # Q is the start of a line
        b, o = byte(I), wc.at
        put(I, w, wc, z3.IntVal(0), CNT(pos) + 1, lambda j: ite(j < CNT(pos), CP(POS(pos, j)), 0))
        put(I, d, dc, z3.IntVal(0), D, lambda j: ite(j < dlen(pos), signed(I, b(T(pos) + 1 + j)), 0))
        I.write(lv, f.at(NEXT(pos)))
        I.ghost['line'] = pos
        I.ghost['nuls'] = lambda I2, p: [dlen(pos)]
        return 0
def bank_of(I, names):
    for nm, lv in names.items():
        try: v = I.deref_lv(lv)
        except Exception: continue
        if isinstance(v, PtrV) and v.lv is not None:
            x = I.read(v.lv)
            if isinstance(x, StructV) and 'pool' in x.f and 'dataSize' in x.f and 'poolSize' in x.f: return v.lv, x
    raise Unsupported('data bank')
def gen_tasks(P):
    def stored(I): return I.read(I.ghost['stored'])
    def trie_store(I, this, a, node):
        p, c, i = arr(I, a[1], 'trie_store')
        idx = zi(I.deref_lv(a[2]))
        pos = I.ghost.get('line')
        if pos is None: I.ob('GenDict: a word is stored for every line read', False, 'post'); raise interp.PathEnd()
        ok = z3.Bool('stored!%d' % I.newid())
        I.ob('GenDict: the word of the line is stored', z3.And(z3.Implies(z3.And(J >= 0, J < CNT(pos)), zi(c.at(i + J)) == CP(POS(pos, J))), zi(c.at(i + CNT(pos))) == 0), 'post')
        s = stored(I)
        I.write(I.ghost['stored'], StoreV(z3.If(z3.And(ok, pos == Q), s.n + 1, s.n), z3.If(z3.And(ok, pos == Q), idx, s.idx)))
        return z3.If(ok, z3.IntVal(1), z3.IntVal(0))
    def fwrite(I, this, a, node):
        sz, cnt = I.deref_lv(a[1]), I.deref_lv(a[2])
        p, c, i = arr(I, a[0], 'fwrite')
        if isinstance(cnt, int) and cnt == 1: m = zi(sz)
        elif isinstance(sz, int) and sz == 1: m = zi(cnt)
        else: raise Unsupported('fwrite of %s items' % cnt)
        f = I.deref_lv(a[3])
        if not isinstance(f, PtrV) or not isinstance(I.read(f.lv), OutV): raise Unsupported('fwrite to another stream')
        o = I.read(f.lv)
        I.ob('%s: fwrite stays inside its array' % I.where(), z3.And(m >= 0, i >= 0, i + m <= zi(c.n)), 'safety')
        n0, at = o.n, o.at
        I.write(f.lv, OutV(o.tries, n0 + m, lambda j: ite(z3.And(zi(j) >= n0, zi(j) < n0 + m), zi(c.at(i + zi(j) - n0)), at(j))))
        if isinstance(cnt, int) and cnt == 1: return z3.If(m > 0, z3.IntVal(1), z3.IntVal(0))
        return m
    def trie_fwrite(I, this, a, node):
        f = I.deref_lv(a[1]); o = I.read(f.lv)
        I.ob('GenDict: the trie is written first', o.n == 0, 'post')
        I.write(f.lv, OutV(o.tries + 1, o.n, o.at)); return 0
    def bank_inv(I, x, who):
        p = x.f['pool']
        if not isinstance(p, IterV): return [(who + 'pool', z3.BoolVal(False))]
        c = I.read(p.c)
        if not isinstance(c, SeqV): return [(who + 'pool', z3.BoolVal(False))]
        ps, ds = zi(x.f['poolSize']), zi(x.f['dataSize'])
        return [(who + 'pool', z3.And(zb(pnot(p.nul)), zi(p.i) == 0, zi(c.n) == ps)), (who + 'sizes', z3.And(ds >= 0, ds <= ps, ps >= 1, ps <= 2**30))]
    def kept(I, x):
        """the data of the tracked line"""
        s = stored(I); c = I.read(x.f['pool'].c) if isinstance(x.f['pool'], IterV) else None
        if not isinstance(c, SeqV): return z3.BoolVal(False)
        return z3.And(s.idx >= 0, s.idx + dlen(Q) < zi(x.f['dataSize']),
                      z3.Implies(z3.And(K >= 0, K < dlen(Q)), zi(c.at(s.idx + K)) == signed(I, FB(T(Q) + 1 + K))), zi(c.at(s.idx + dlen(Q))) == 0)
    def loop(I, i, n):
        body = n['inner']
        def calls(x):
            return (x.get('referencedDecl') or {}).get('name') == 'ReadInput' or any(calls(c) for c in x.get('inner', []))
        if not calls(n):                                     # a loop over the word
            def walk(ctx): return [(a + ' in word', z3.And(x >= 0, x <= CNT(ctx.I.ghost['line']))) for a, ta, x in iters(ctx.I, ctx.names0) if ctx.I.ghost['line'] is not None]
            def left(ctx):
                m = [CNT(ctx.I.ghost['line']) - x for a, ta, x in iters(ctx.I, ctx.names0) if ta in WORDS and ctx.I.ghost['line'] is not None and not z3.is_int_value(x)]
                return tuple(m[:1]) or None
            return dict(inv=lambda ctx: [], cands=walk, lex=left)
        def inv(ctx):
            I = ctx.I
            lv, x = bank_of(I, ctx.names0)
            f = I.read(I.ghost['input']); pos = zi(f.pos)
            s = stored(I)
            return bank_inv(I, x, 'bank ') + [('position', z3.And(pos >= 0, pos <= FL)), ('bank size', z3.And(zi(x.f['dataSize']) <= pos)),
                    ('every line so far is stored once', z3.Implies(z3.And(Q >= 0, Q < FL), s.n == z3.If(Q < pos, 1, 0))),
                    ('every line so far has its data', z3.Implies(z3.And(Q >= 0, Q < pos), kept(I, x)))]
        def modifies(I, lvs):
            lv, x = bank_of(I, I.frames[-1].names)
            out = [l for l in lvs if not isinstance(I.read(l), (OpaqueV, FileV, StoreV, StructV)) and l.loc not in (lv.loc, x.f['pool'].c.loc)]
            # the bank: arbitrary, with an arbitrary block
            c = I.read(x.f['pool'].c)
            nm = 'bank!%d' % I.newid()
            n = z3.Int(nm + '.n'); I.fact(n >= 0)
            I.ghost['bank'] = (lv, x.f['pool'].c)
            return out + [I.ghost['input'], I.ghost['stored'], lv]
        return dict(inv=inv, modifies=modifies, measure=lambda ctx: FL - zi(ctx.I.read(ctx.I.ghost['input']).pos))
    def anybank(I, name, idx):
        n = z3.Int(name + '.n'); I.fact(n >= 0)
        g = z3.Function(name + '[]', Z, Z)
        lv = I.alloc(SeqV('char', n, lambda j: g(zi(j)), kind='array'))
        return StructV('DataBank_', dict(pool=IterV(lv, 0, nul=z3.Bool(name + '.nul')), poolSize=z3.Int(name + '.poolSize'), dataSize=z3.Int(name + '.dataSize')))
    def run(I):
        world(I)
        I.ghost['line'] = None
        I.fact(z3.Implies(z3.And(Q >= 0, Q < FL), z3.And(T(Q) >= Q, T(Q) < E(Q), E(Q) - Q <= 254, E(Q) <= FL)))
        f = I.alloc(FileV(byte(I), FL, z3.IntVal(0)))
        o = I.alloc(OutV(0, z3.IntVal(0), lambda j: z3.IntVal(0)))
        I.ghost['input'] = f
        I.ghost['stored'] = I.alloc(StoreV(z3.IntVal(0), z3.Int('noidx')))
        r = zi(I.deref_lv(call(I, 'GenDict', None, [PtrV(f, False), PtrV(o, False)], inline=True)))
        if not I.branch(r == 0): return
        out, s = I.read(o), stored(I)
        b = lambda k: z3.If(zi(out.at(z3.IntVal(k))) < 0, zi(out.at(z3.IntVal(k))) + 256, zi(out.at(z3.IntVal(k))))
        size = b(0) * 2**24 + b(1) * 2**16 + b(2) * 2**8 + b(3)
        I.ob('GenDict: the trie is written', z3.BoolVal(out.tries == 1), 'post')
        I.ob('GenDict: the size written is that of the data', out.n == 4 + size, 'post')
        inq = z3.And(Q >= 0, Q < FL)
        I.ob('GenDict: every entry is stored once', z3.Implies(inq, s.n == 1), 'post')
        I.ob('GenDict: the data of every entry is at its index', z3.Implies(inq, z3.And(s.idx >= 0, s.idx + dlen(Q) < size,
             z3.Implies(z3.And(K >= 0, K < dlen(Q)), zi(out.at(4 + s.idx + K)) == signed(I, FB(T(Q) + 1 + K))), zi(out.at(4 + s.idx + dlen(Q))) == 0)), 'post')
    def alpha_add(I, this, a, node):
        m = I.deref_lv(a[0]); lo, hi = I.deref_lv(a[1]), I.deref_lv(a[2])
        v = I.read(m.lv)
        I.write(m.lv, OpaqueV('AlphaMap', dict(v.d, rs=v.d.get('rs', ()) + ((zi(lo), zi(hi)),)))); return 0
    def trie_new(I, this, a, node):
        m = I.deref_lv(a[0]); v = I.read(m.lv)
        c = z3.Int('letter')
        I.ob('NewTrie: the alphabet has every Thai character', z3.Implies(z3.And(c >= 0xe01, c <= 0xe5b), z3.Or([z3.And(c >= l, c <= h) for l, h in v.d.get('rs', ())] or [z3.BoolVal(False)])), 'post')
        return ptr(I, 'Trie')
    def nothing(I, this, a, node): return 0
    hooks = dict(cmem.HOOKS, malloc=malloc, trie_store=trie_store, fwrite=fwrite, trie_fwrite=trie_fwrite, trie_new=trie_new, alpha_map_add_range=alpha_add,
                 alpha_map_new=lambda I, this, a, node: ptr(I, 'AlphaMap'), alpha_map_free=nothing, trie_free=nothing, alpha_char_strlen=lambda I, this, a, node: I.fresh('int', 'alen'))
    return [vc.Task('GenDict', run, ['GenDict', 'NewDataBank', 'DataBankAllocate', 'DataBankAddData', 'DataBankWrite', 'FileWriteInt32', 'FreeDataBank', 'NewTrie'],
                    hooks=hooks, contracts={'ReadInput': Read()}, loopspecs={'GenDict': loop}, fresh_hooks={'DataBank_': anybank}, timeout=20000)]

# ------------------------------------------------------------------ the program
class StreamV:
    """an open stream: which file, for reading or writing"""
    def __init__(self, path, mode, open): self.path, self.mode, self.open = path, mode, open
def main_tasks(P):
    def fopen(I, this, a, node):
        p, m = I.deref_lv(a[0]), I.deref_lv(a[1])
        if not isinstance(m, CStrV) or not isinstance(p, CStrV): raise Unsupported('fopen of %s' % type(p).__name__)
        k = I.newid()
        return PtrV(I.alloc(StreamV(models.zstr(p.s), str(m.s), True)), z3.Bool('missing!%d' % k))
    def fclose(I, this, a, node):
        p = I.deref_lv(a[0])
        I.ob('main: an open file is closed', pand([pnot(p.nul), I.read(p.lv).open]), 'safety')
        s = I.read(p.lv); I.write(p.lv, StreamV(s.path, s.mode, False)); return 0
    class Gen:
        def applies(self, node): return True
        def apply(self, I, node, tu, this, a):
            i, o = I.deref_lv(a[0]), I.deref_lv(a[1])
            I.ob('main: both files are open', pand([pnot(i.nul), pnot(o.nul)]), 'pre')
            si, so = I.read(i.lv), I.read(o.lv)
            ok = lambda s, k, ms: pand([s.open, s.mode in ms, eqi(s.path, z3.String('arg%d' % k))])
            I.ob('main: reads the list named first', ok(si, 1, ('r', 'rb', 'rt')), 'post')
            I.ob('main: writes the dictionary named second', ok(so, 2, ('wb', 'w', 'w+', 'wb+', 'w+b')), 'post')
            I.ghost['ran'] = I.ghost.get('ran', 0) + 1; I.ghost['files'] = (i.lv, o.lv)
            r = z3.Int('gen'); I.fact(z3.Or(r == 0, r == 1)); return r
    def run(I):
        n = z3.Int('argc'); I.fact(z3.And(n >= 1, n < 1000))
        av = IterV(I.alloc(SeqV('const char *', n, lambda j: CStrV(z3.String('arg%d' % j)) if isinstance(j, int) else CStrV(z3.Function('arg', Z, z3.StringSort())(j)), kind='array')), 0)
        f = [x for x in P.byname.get('main', []) if x[1].path.endswith('.c')]
        if not f: raise Unsupported('main of the generator')
        r = zi(I.deref_lv(I.call(f[0][0], f[0][1], None, [n, av], inline=True)))
        ran = I.ghost.get('ran', 0)
        I.ob('main: generates at most once', z3.BoolVal(ran <= 1), 'post')
        I.ob('main: success is reported for a generated dictionary only', z3.Implies(r == 0, z3.And(z3.BoolVal(ran == 1), z3.Int('gen') == 0)), 'post')
        if ran:
            I.ob('main: a generated dictionary is reported as success', z3.Implies(z3.Int('gen') == 0, r == 0), 'post')
            I.ob('main: the dictionary is closed', not I.read(I.ghost['files'][1]).open, 'post')
    def nothing(I, this, a, node): return 0
    return [vc.Task('gen-lookup-dict main', run, ['main'], hooks=dict(cmem.HOOKS, fopen=fopen, fclose=fclose, Usage=nothing), contracts={'GenDict': Gen()})]
def tasks(P): return read_tasks(P) + gen_tasks(P) + main_tasks(P)
