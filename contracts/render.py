"""Complete tables syllable -> text of the five notations, by symbolic
execution of the real output functions and complete evaluation of the path
summaries; and the same tables from the compiled code."""
import itertools
from contracts.spec import *
import finite
NOTATIONS = ['Thai', 'Roman', 'Phonetic', 'Raw', 'Soundex']
PARS = ['i1', 'i2', 'v', 'e', 't']

def mk_syl(I, comps, endPos):
    """through the public constructor"""
    want = ['EInitConsSound', 'ESecInitCons', 'EVowel', 'EEndConsClass', 'ETone']
    return construct(I, 'Syl', lambda ps: [p.split('::')[-1] for p in ps[:5]] == want and len(ps) == 6, list(comps) + [endPos])

def domains(P):
    E = Enums(P)
    return [[(n, E.s(n)) for n in SOUNDS], [(n, E.i2(n)) for n in SECS], [(n, E.v(n)) for n in VOWELS], [(n, E.e(n)) for n in ENDS], [(n, E.t(n)) for n in TONES]]

def valid(I, P):
    xs = [z3.Int(p) for p in PARS]
    for x, d in zip(xs, domains(P)): I.assume(inset(x, [v for _, v in d]))
    return xs

def output(I, notation, lv):
    f = fn(I.P, notation + 'SylOutput::output')
    r = I.call(f[0], f[1], I.alloc(StructV(notation + 'SylOutput', {})), [lv])
    return I.read(r) if isinstance(r, LV) else r

def table(P, I, notation, endPos=7):
    """{names: utf-8 text} for every valid syllable; safety obligations of the
    renderer are recorded in I"""
    def run(I):
        return output(I, notation, mk_syl(I, valid(I, P), endPos))
    S = finite.summarize(I, run, PARS)
    T = {}
    for c in itertools.product(*domains(P)):
        v = S(*[x[1] for x in c])
        if v is not None: v = v.encode('latin-1').decode('utf8', 'replace')
        T[tuple(x[0] for x in c)] = v
    I.stats['cases'] = len(T)
    return T

def compiled(B):
    """the same tables from the compiled code; None when not buildable"""
    exe = B.build().driver('drv_render')
    if not exe:
        B.skipped.append('drv_render: ' + (B.build().err or '')[-300:]); return None
    rc, out, err, _ = B.run([exe, 'all'], timeout=120)
    T = {n: {} for n in NOTATIONS}
    for l in out.decode('utf8', 'replace').split('\n'):
        f = l.split('\t')
        if len(f) != 11: continue
        k = tuple(f[:5])
        for n, s in zip(NOTATIONS, f[5:10]): T[n][k] = s
    if rc != 0:
        last = list(T['Thai'].keys())[-1:] 
        B.fail('rendering stopped abnormally (exit %s) after %s: %s' % (rc, last, err.decode('utf8', 'replace')[-300:]))
    B.count(len(T['Thai']) * 5, len({x for n in T for x in T[n].values()}))
    return T

def record(I, name, bad, line=None):
    """bad: list of descriptions of cases violating the obligation"""
    I.record(name, 'failed' if bad else 'ok', line, ('%d cases, e.g. ' % len(bad) + '; '.join(bad[:3])) if bad else None, 0, 'case-analysis', 'post')

def complete(I, T, what):
    """no case fails, none is empty"""
    for s in SOUNDS:
        record(I, '%s: every syllable with initial %s rendered non-empty' % (what, s), ['/'.join(k) for k, v in T.items() if k[0] == s and not v])

class PStr:
    """std::string known as a list of character terms followed by decimal numerals"""
    def __init__(self, parts): self.p = parts
    def size(self, I):
        n = 0
        for x in self.p: n = add(n, 1 if x[0] == 'c' else numlen(I, x[1]))
        return n
    def ch(self, I, i):
        i = toint(i)
        if not isinstance(i, int): raise Unsupported('symbolic index')
        if i < len(self.p) and all(x[0] == 'c' for x in self.p[:i + 1]): return self.p[i][1]
        if i == len(self.p) and all(x[0] == 'c' for x in self.p): return 0
        I.ob('str-index:%s' % I.where(), lt(i, self.size(I)), 'safety')
        return I.fresh('char', 'digit')
    def method_(self, I, base, name, args, n):
        a = [I.deref_lv(x) for x in args]
        if name in ('size', 'length'): return self.size(I)
        if name == 'empty': return eqi(self.size(I), 0)
        if name in ('operator[]', 'at'): return self.ch(I, a[0])
        if name == 'front': return self.ch(I, 0)
        if name == 'substr':
            k = a[0] if a else 0
            m = a[1] if len(a) > 1 else None
            if isinstance(k, int) and k <= len(self.p) and all(x[0] == 'c' for x in self.p[:k]):
                if m is None or (isinstance(m, int) and m >= 1 << 62): return PStr(self.p[k:])
                if isinstance(m, int) and all(x[0] == 'c' for x in self.p[k:k + m]): return PStr(self.p[k:k + m])
        if name == 'find' and isinstance(a[0], int):
            for i, x in enumerate(self.p):
                if x[0] != 'c': break
                e = I.simp(eqi(x[1], a[0])) if i >= (a[1] if len(a) > 1 else 0) else False
                if e is True: return i
                if e is not False:
                    if I.entails(z3.Not(e)): continue
                    break
        raise Unsupported('string method %s' % name)
    def stoi_(self, I):
        if len(self.p) == 1 and self.p[0][0] == 'n':
            v = self.p[0][1]
            I.ob('stoi-range:%s' % I.where(), z3.And(v >= -2**31, v < 2**31), 'safety')
            return v
        raise Unsupported('stoi of a text that is not a numeral')
def numlen(I, v):
    f = z3.Function('numlen', z3.IntSort(), z3.IntSort())
    I.fact(f(v) >= 1)
    return f(v)
def parts(s):
    """z3 string term -> PStr parts"""
    if isinstance(s, str): return [('c', ord(c) - 256 if ord(c) > 127 else ord(c)) for c in s]
    if z3.is_string_value(s): return parts(unzstr(s.as_string()))
    k = s.decl().kind()
    if k == z3.Z3_OP_SEQ_CONCAT: return [x for c in s.children() for x in parts(c)]
    if k == z3.Z3_OP_ITE:
        c, a, b = s.children()
        n = numeral(a, b)
        if n is not None: return [('n', n)]
        pa, pb = parts(a), parts(b)
        if len(pa) == len(pb):
            return [(x[0], z3.simplify(z3.If(c, zi(x[1]), zi(y[1])))) if x[0] == y[0] == 'c' else x for x, y in zip(pa, pb)
                    if x[0] == y[0] == 'c' or x == y or _bad()]
    if s.decl().name() == 'str.from_code': return [('c', s.children()[0])]
    raise Unsupported('text not of fixed shape')
def _bad(): raise Unsupported('text not of fixed shape')
def numeral(a, b):
    for x, y in ((a, b), (b, a)):
        if x.decl().kind() == z3.Z3_OP_INT_TO_STR and y.decl().kind() == z3.Z3_OP_SEQ_CONCAT: return x.children()[0]
    return None
from models import zi
