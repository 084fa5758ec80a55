"""C15: JSON output."""
import json
from contracts.spec import *
from contracts import outoracle
from contracts.strout import *
from models import str_at
BOUND = 'random lists of up to 3 sequences, random lattices (up to 3 chains x 3 fractions x 3 alternatives) and random graphs; five notations; literals with quotes, backslashes, control and non-BMP characters'
ASSUMPTIONS = ['the text of a syllable is an arbitrary function of the syllable, and is well-formed UTF-8 (the notations are the subject of C09, C17, C18)',
               'bytes of 0x80 and above are kept as they are, so well-formed UTF-8 stays well-formed UTF-8']
q = z3.StringVal

def escapers(P):
    """file-local functions string -> string of the JSON writer"""
    out = []
    for l in P.byname.values():
        for n, tu in l:
            if tu.path.endswith('output-json.cxx') and n.get('kind') == 'FunctionDecl' and '_rec' not in n:
                ps = [c for c in n['inner'] if c['kind'] == 'ParmVarDecl']
                if len(ps) == 1 and n['type']['qualType'].split('(')[0].strip().replace('std::', '') == 'string' and 'string' in interp.ctype(ps[0]):
                    out.append((n, tu))
    return out

def tasks(P, tier):
    out = []
    esc = escapers(P)
    ESC = z3.Function('escaped', SS, SS)
    T = {}
    def table(I, n, tu):
        """what the escaping function makes of each single byte"""
        t = {}
        for b in range(256):
            r = I.call(n, tu, None, [I.alloc(chr(b))], inline=True)
            if not isinstance(r, str): raise Unsupported('escape of byte %d' % b)
            t[b] = r
        return t
    def valid(b, r):
        if b >= 128: return r == chr(b)
        if any(ord(c) < 32 or ord(c) > 126 and ord(c) != 127 for c in r): return False
        try: return json.loads('"' + r + '"') == chr(b)
        except ValueError: return False
    def escape(n, tu):
        def run(I):
            I.loopspecs = {}
            t = table(I, n, tu)
            bad = [b for b in range(256) if not valid(b, t[b])]
            I.ob('every byte is written as JSON string content that reads back as the same byte', not bad, 'post')
            if bad: return
            I.loopspecs = Everywhere()
            ch = z3.Function('text[]', z3.IntSort(), z3.IntSort())
            special = [b for b in sorted(t) if t[b] != chr(b)]
            def at(j):
                c = ch(zi(j))
                I.fact(z3.And(c >= 0, c <= 255))
                for b in special:
                    if I.branch(c == b): return b - 256 if b >= 128 else b
                return c - 256 if I.branch(c >= 128) else c
            nn = z3.Int('text.n'); I.fact(nn >= 0)
            s = I.alloc(SeqV('char', nn, at, kind='vector'))
            def item(k):
                c = ch(k); r = z3.StrFromCode(c)
                for b in special: r = z3.If(c == b, zstr(t[b]), r)
                return r
            J = Join(I, 'escape', [], item, lambda k: q(''))
            I.ghost['joins'] = lambda I, c: [J] if c.same(s) else []
            r = I.call(n, tu, None, [s], inline=True)
            I.ob('the escaped text is the escaped bytes in order', eqv(r, J.at(nn)), 'post')
        return vc.Task('escape: ' + n['_q'], run)
    for n, tu in esc: out.append(escape(n, tu))
    def hooks():
        h = {'ISylOutput::output': render_hook}
        for n, tu in esc: h[n['_q']] = lambda I, this, args, node: ESC(zstr(I.deref_lv(args[0])))
        return h
    comma = lambda k: z3.If(k == 0, q(''), q(','))
    wrap = lambda a, x, b: z3.Concat(q(a), z3.Concat(x, q(b)))
    def seq(I):
        this = I.alloc(I.fresh('JsonOutput', 'this')); s = I.alloc(I.fresh('SylString', 's'))
        C = call(I, 'SylString::begin', s, pred=lambda n: 'const' in n['type']['qualType']).c
        J = Join(I, 'syls', [], lambda k: wrap('"', ESC(R(I, I.read(C.e(k)))), '"'), comma)
        I.ghost['joins'] = lambda I, c: [J] if c.same(C) else []
        r = call(I, 'JsonOutput::output', this, [s], pred=ov('SylString'), inline=True)
        I.ob('a reading is the array of its syllables as strings, in order', eqv(r, wrap('[', J.at(I.read(C).n), ']')), 'post')
    out.append(vc.Task('JsonOutput::output(SylString)', seq, hooks=hooks(), fresh_hooks=dict(FH), loopspecs=Everywhere()))
    O = z3.Function('reading', AStr, SS)
    def outp(I, this, args, node):
        if pkind(node) != 'SylString': return NotImplemented
        return O(I.deref_lv(args[0]))
    fh = dict(FH); fh['SylString'] = abs_string
    def lst(I):
        this = I.alloc(I.fresh('JsonOutput', 'this')); l = I.alloc(I.fresh('std::list<SylString>', 'l'))
        J = Join(I, 'list', [], lambda k: O(I.read(l.e(k))), comma)
        I.ghost['joins'] = lambda I, c: [J] if c.same(l) else []
        r = call(I, 'JsonOutput::output', this, [l], pred=ov('list'), inline=True)
        I.ob('a list is the array of its readings, in order', eqv(r, wrap('[', J.at(I.read(l).n), ']')), 'post')
    out.append(vc.Task('JsonOutput::output(list)', lst, hooks={'JsonOutput::output': outp}, fresh_hooks=fh, loopspecs=Everywhere()))
    dag_task(P, 'JsonOutput', out)
    def latt(I):
        this = I.alloc(I.fresh('GroupedJsonOutput', 'this')); l = I.alloc(I.fresh('PronunLatt', 'l'))
        beg = lambda cls, lv: call(I, cls + '::begin', lv, pred=lambda n: 'const' in n['type']['qualType']).c
        CL = beg('PronunLatt', l)
        CF = lambda c: beg('PronunChain', CL.e(c))
        CS = lambda c, f: beg('PronunFrac', CF(c).e(f))
        J3 = lambda c, f: Join(I, 'alt', [c, f], lambda k: O(I.read(CS(c, f).e(k))), comma)
        J2 = lambda c: Join(I, 'frac', [c], lambda k: wrap('[', J3(c, k).raw(I.read(CS(c, k)).n), ']'), comma)
        J1 = Join(I, 'chain', [], lambda k: wrap('[', J2(k).raw(I.read(CF(k)).n), ']'), comma)
        def joins(I, c):
            if c.loc != CL.loc: return []
            ix = [p[1] for p in c.path if p[0] == 'e']
            return [[J1], [J2(*ix)] if len(ix) == 1 else [], [J3(*ix)] if len(ix) == 2 else []][len(ix)] if len(ix) < 3 else []
        I.ghost['joins'] = joins
        r = call(I, 'GroupedJsonOutput::output', this, [l], pred=ov('PronunLatt'), inline=True)
        I.ob('a lattice is the array of chains of fractions of alternatives, in order', eqv(r, wrap('[', J1.at(I.read(CL).n), ']')), 'post')
    out.append(vc.Task('GroupedJsonOutput::output(PronunLatt)', latt, hooks={'JsonOutput::output': outp}, fresh_hooks=fh, loopspecs=Everywhere()))
    def grouped(kind):
        def run(I):
            fd, la, gr = OpaqueV('FracDAG'), OpaqueV('PronunLatt'), OpaqueV('PronunDAG')
            arg = I.alloc(gr) if kind == 'PronunDAG' else I.alloc(I.fresh('std::list<SylString>', 'l'))
            class GH:
                def __call__(self, I, name, idx): return gr
                def construct(self, I, e, argn):
                    a = [I.ev(x) for x in argn]
                    if len(a) == 1 and isinstance(a[0], LV) and a[0].same(arg): return gr
                    v = I.deref_lv(a[0]) if len(a) == 1 else None
                    w = I.deref_lv(arg)
                    if v is gr or (isinstance(v, SeqV) and isinstance(w, SeqV) and v.n is w.n and v.atf is w.atf): return gr
                    raise Unsupported('graph built from something else')
            I.fresh_hooks['PronunDAG'] = GH()
            def is_(what, v, w): I.ob('grouped output of a %s: %s' % (kind, what), v is w, 'pre')
            def f1(I, this, args, node):
                is_('the grouping of the given readings', I.deref_lv(this), gr); return fd
            def f2(I, this, args, node):
                is_('the lattice of the grouping', I.deref_lv(this), fd); return la
            def f3(I, this, args, node):
                if pkind(node) != 'PronunLatt': return NotImplemented
                is_('the lattice is written', I.deref_lv(args[0]), la); return z3.String('text of the lattice')
            I.hooks = {'PronunDAG::fracDAG': f1, 'FracDAG::lattice': f2, 'GroupedJsonOutput::output': f3}
            this = I.alloc(I.fresh('GroupedJsonOutput', 'this'))
            r = call(I, 'GroupedJsonOutput::output', this, [arg], pred=ov(kind), inline=True)
            I.ob('grouped output of a %s is that of its lattice' % kind, eqv(r, z3.String('text of the lattice')), 'post')
        f = dict(fh); f['FracDAG'] = f['PronunLatt'] = lambda I, name, idx: OpaqueV('opaque')
        return vc.Task('GroupedJsonOutput::output(%s)' % kind, run, fresh_hooks=f)
    out.append(grouped('PronunDAG')); out.append(grouped('list'))
    return out

def bounded(B):
    outoracle.bounded(B, B.scale(1500, 40000, 8000), {'json', 'json1', 'gjson', 'dag'})
