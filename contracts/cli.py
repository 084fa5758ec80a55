"""Contracts for the command line (C19): thpronun/thpronun.cxx.  argv[i] is a
NUL-terminated sequence CH(i, 0), CH(i, 1), ...; what the options before
argument i ask for is defined by recursion over i."""
from contracts.spec import *
import models
Z, B_, S = z3.IntSort(), z3.BoolSort(), z3.StringSort()
CH, LEN, ARG = z3.Function('argchar', Z, Z, Z), z3.Function('arglen', Z, Z), z3.Function('arg', Z, Z, S)
LINE, REND, TEXT = z3.Function('line', Z, S), z3.Function('rendered', Z, S), z3.Function('notation', Z, S)
JSON, GROUP, BREAK, QUIT = [z3.Function(n, Z, B_) for n in ('json', 'grouped', 'wordbreak', 'stopped')]
NOPT, NOUT, DICT = [z3.Function(n, Z, Z) for n in ('options', 'outputs', 'dictarg')]
ARGC, NLINES, A, D, H = z3.Ints('argc lines A D H')   # H: the first argument that is not an ordinary one
ASSUMPTIONS = ['contracts of the standard library: getline, cout, strcmp, list, unique_ptr (trusted)', 'argument vectors as the C runtime passes them (argc >= 1, arguments NUL-terminated)',
               'what a notation prints for a word is the subject of C15-C18; here only which notation and structure is chosen, and in which order']
KINDS = dict(r='Roman', s='Soundex', t='Thai', p='Phonetic', w='Raw')
CODE = {'Roman': 0, 'Soundex': 1, 'Thai': 2, 'Phonetic': 3, 'Raw': 4}
PLAIN = {'Roman': ('RomanOutput', None, None), 'Soundex': ('DelimOutput', 'SoundexSylOutput', '-'), 'Thai': ('DelimOutput', 'ThaiSylOutput', '-'),
         'Phonetic': ('DelimOutput', 'PhoneticSylOutput', ' '), 'Raw': ('DelimOutput', 'RawSylOutput', ',')}
def zi(x): return z3.IntVal(x) if isinstance(x, int) else x
def is_(i, *cs): return z3.Or([CH(i, 1) == ord(c) for c in cs])
def opt(i): return CH(i, 0) == ord('-')
def text(i, off, s): return z3.And([CH(i, off + k) == ord(c) for k, c in enumerate(s)] + [CH(i, off + len(s)) == 0])
def version(i): return z3.And(opt(i), z3.Or(is_(i, 'V'), z3.And(is_(i, '-'), text(i, 2, 'version'))))
def usage(i): return z3.And(opt(i), z3.Or(is_(i, 'h'), z3.And(is_(i, '-'), text(i, 2, 'help'))))
def known(i): return z3.Or(is_(i, 'n', 'j', 'g', *KINDS), z3.And(is_(i, 'd'), CH(i, 2) != 0))
def halt(i): return z3.And(opt(i), z3.Not(known(i)))     # help, version or not understood
def outopt(i): return z3.And(opt(i), is_(i, *KINDS))
def kind(i):
    r = z3.IntVal(-1)
    for c, k in KINDS.items(): r = z3.If(CH(i, 1) == ord(c), CODE[k], r)
    return r
def fmt(j, g): return z3.If(j, z3.If(g, 2, 1), 0)
def arg(I, i):
    """facts about argument i, and what the options up to it ask for"""
    i = zi(i)
    I.fact(z3.And(LEN(i) >= 0, CH(i, LEN(i)) == 0))
    for k in range(11): I.fact(z3.And(CH(i, k) >= -128, CH(i, k) < 128, z3.Implies(k < LEN(i), CH(i, k) != 0), z3.Implies(k == LEN(i), CH(i, k) == 0)))
    b = lambda f, *cs: f(i + 1) == z3.Or(f(i), z3.And(opt(i), is_(i, *cs)))
    I.fact(z3.Implies(i >= 1, z3.And(b(JSON, 'j', 'g'), b(GROUP, 'g'), BREAK(i + 1) == z3.And(BREAK(i), z3.Not(z3.And(opt(i), is_(i, 'n')))), QUIT(i + 1) == z3.Or(QUIT(i), halt(i)),
                     NOPT(i + 1) == NOPT(i) + z3.If(opt(i), 1, 0), NOUT(i + 1) == NOUT(i) + z3.If(outopt(i), 1, 0), NOPT(i) >= 0, NOPT(i) <= i - 1, NOUT(i) >= 0, NOUT(i) <= NOPT(i),
                     DICT(i + 1) == z3.If(z3.And(opt(i), is_(i, 'd')), i, DICT(i)))))
    for x in (i, i + 1): I.fact(z3.Implies(z3.And(x >= 1, x <= ARGC, QUIT(x)), QUIT(ARGC)))    # by induction
    I.fact(z3.Implies(z3.And(i >= 1, i < ARGC, z3.Not(opt(i))), NOPT(ARGC) <= ARGC - 2))     # by induction
    I.fact(z3.Implies(z3.And(i >= 1, i < ARGC, z3.Not(QUIT(i)), halt(i)), i == H))
    I.fact(z3.And(z3.Not(JSON(1)), z3.Not(GROUP(1)), BREAK(1), z3.Not(QUIT(1)), NOPT(1) == 0, NOUT(1) == 0, DICT(1) == 0))
class OutK:
    """an output module: which notation, in which structure"""
    owner_ = True                                            # stands for the pointer and the module it owns
    def __init__(self, k, f): self.k, self.f = k, f
    def ite_(self, c, o):
        if not isinstance(o, OutK): raise Unsupported('choice of output module')
        return OutK(z3.If(c, self.k, o.k), z3.If(c, self.f, o.f))
    def havoc_(self, I, name): return OutK(z3.Int(name + '.kind'), z3.Int(name + '.fmt'))
def freshout(I, name, idx):
    if idx: return OutK(z3.Function(name + '.kind', Z, Z)(zi(idx[0])), z3.Function(name + '.fmt', Z, Z)(zi(idx[0])))
    return OutK(z3.Int(name + '.kind'), z3.Int(name + '.fmt'))
PTR = 'std::unique_ptr<IOutput>'

# ------------------------------------------------------------------ Make*Output
def make_tasks(P):
    """each maker chooses the notation of its name in the structure asked for"""
    def unique(I, this, a, node):
        t = strip_type(ctype_(node))
        m = re.search(r'unique_ptr<([A-Za-z]+)', t) or re.search(r'_MakeUniq<([A-Za-z]+)>', t)
        if not m: raise Unsupported('make_unique of %s' % t)
        return PtrV(I.alloc(OpaqueV(m.group(1), {'args': tuple(I.deref_lv(x) for x in a)})), False)
    def mk(name):
        def run(I):
            j, g = z3.Bools('json grouped')
            r = I.deref_lv(call(I, 'Make%sOutput' % name, None, [j, g], inline=True))
            if not isinstance(r, PtrV) or r.lv is None: raise Unsupported('result of the maker')
            o = I.read(r.lv); args = o.d['args']
            syl = I.read(args[0].lv).t if args and isinstance(args[0], PtrV) and args[0].lv is not None else None
            sep = args[1] if len(args) > 1 else None
            cls, ps, psep = PLAIN[name]
            plain = o.t == cls and syl == ps and (psep is None and sep is None or isinstance(sep, int) and psep is not None and chr(sep) == psep or (isinstance(sep, CStrV) or isinstance(sep, str)) and str(getattr(sep, 's', sep)) == psep)
            want = z3.If(j, z3.If(g, z3.BoolVal(o.t == 'GroupedJsonOutput' and syl == name + 'SylOutput'), z3.BoolVal(o.t == 'JsonOutput' and syl == name + 'SylOutput')), z3.BoolVal(plain))
            I.ob('Make%sOutput: the notation in the structure asked for' % name, want, 'post')
        return vc.Task('Make%sOutput' % name, run, ['Make%sOutput' % name], hooks={'make_unique': unique})
    return [mk(k) for k in CODE]
import re
from program import strip_type
def ctype_(n): return (n.get('type') or {}).get('desugaredQualType') or (n.get('type') or {}).get('qualType') or ''

# ------------------------------------------------------------------ DoParse
def parse_tasks(P):
    def run(I):
        w = z3.String('word'); n = z3.Int('n')
        I.fact(z3.And(n >= 0, REND(0) == z3.StringVal('')))
        outs = I.alloc(SeqV(PTR, n, lambda j: OutK(z3.Function('ok', Z, Z)(zi(j)), zi(j)), kind='list'))
        I.ghost['word'] = w
        parser = I.alloc(OpaqueV('Parser', {}))
        c = I.ghost['cout'] = I.alloc(OpaqueV('stream', {'buf': ''}))
        I.globs['cout'] = c
        call(I, 'DoParse', None, [parser, I.alloc(w), outs], inline=True)
        I.ob('DoParse: the word, then a block per notation, in order', eqi(models.zstr(I.read(c).d['buf']), z3.Concat(w, z3.StringVal(':\n'), REND(n))), 'post')
    def render(I, this, a, node):
        v = this if isinstance(this, OutK) else I.read(this)
        if not isinstance(v, OutK): raise Unsupported('output of %s' % type(v).__name__)
        d = I.deref_lv(a[0])
        I.ob('DoParse: what is printed is the word', isinstance(d, OpaqueV) and d.t == 'Pron' and d.d['of'].eq(I.ghost['word']), 'post')
        return TEXT(zi(v.f))
    class Parse:
        def applies(self, node): return True
        def apply(self, I, node, tu, this, a): return OpaqueV('Pron', {'of': models.zstr(I.deref_lv(a[0]))})
    def loop(I, i, n):
        def cands(ctx):
            I = ctx.I
            if not hasattr(ctx, 'idx'): raise Unsupported('loop over the notations')
            k = zi(ctx.idx)
            I.fact(z3.Implies(k >= 0, REND(k + 1) == z3.Concat(REND(k), TEXT(k), z3.StringVal('\n'))))
            return [('printed', eqi(models.zstr(I.read(I.ghost['cout']).d['buf']), z3.Concat(models.zstr(ctx.at_entry(I.ghost['cout']).d['buf']), REND(k))))]
        return dict(inv=lambda ctx: [], cands=cands, modifies=lambda I, lvs: [l for l in lvs if l.loc != I.ghost['cout'].loc] + [I.ghost['cout']])
    return [vc.Task('DoParse', run, ['DoParse'], hooks={'IOutput::output': render}, contracts={'Parser::parseWord': Parse()}, loopspecs={'DoParse': loop}, fresh_hooks={PTR: freshout})]

# ------------------------------------------------------------------ main
class StateV:
    """what has been done: words processed (how often the tracked one), last one, text shown"""
    def __init__(self, **d): self.d = d
    def but(self, **d): return StateV(**dict(self.d, **d))
    def havoc_(self, I, name): return StateV(**{k: (z3.Const(name + '.' + k, v.sort()) if not isinstance(v, str) else v) for k, v in self.d.items()})
def main_tasks(P):
    f = [x for x in P.byname.get('main', []) if not x[1].path.endswith('.c')]
    def st(I): return I.read(I.ghost['st'])
    def elem(o, k): return OutK(z3.IntVal(-1), z3.IntVal(-1)) if isinstance(o.n, int) and o.n == 0 else o.at(z3.simplify(k))
    def anyarg(I, v, name):
        """a pointer that is null or into some argument"""
        if not isinstance(v, PtrV) and not isinstance(v, IterV): return None
        if isinstance(v, IterV) and v.c.loc != I.ghost['chars'].loc or isinstance(v, PtrV) and v.lv is not None: return None
        return IterV(I.ghost['chars'].e(z3.Int(name + '.arg')), z3.Int(name + '.i'), nul=z3.Bool(name + '.nul'))
    def maker(k):
        class M:
            def applies(self, node): return True
            def apply(self, I, node, tu, this, a):
                return OutK(z3.IntVal(CODE[k]), fmt(zb(I.deref_lv(a[0])), zb(I.deref_lv(a[1]))))
        return M()
    def argno(I, p):
        """number of the argument a pointer points into"""
        if not isinstance(p, IterV) or p.c.loc != I.ghost['chars'].loc or len(p.c.path) != 1: raise Unsupported('pointer to something else than an argument')
        return zi(p.c.path[0][1])
    def string_of(I, p):
        i, o = argno(I, p), zi(p.i)
        a = ARG(i, o); arg(I, i)
        I.fact(z3.Length(a) == LEN(i) - o)
        for l in ['--version', '--help', '-', '--', 'version', 'help'] + ['-' + c for c in 'Vhdnjgrstpw']:      # what the text is, character by character
            I.fact((a == z3.StringVal(l)) == z3.And([CH(i, o + k) == ord(c) for k, c in enumerate(l)] + [CH(i, o + len(l)) == 0]))
        for k in range(3): I.fact(models.char_code(z3.SubString(a, z3.IntVal(k), z3.IntVal(1))) == CH(i, o + k))
        return a
    def cstr(x): return str(x.s) if isinstance(x, CStrV) else x if isinstance(x, str) else None
    def strcmp(I, this, a, node):
        p, q = I.deref_lv(a[0]), I.deref_lv(a[1])
        if isinstance(p, CStrV): p, q = q, p
        if cstr(q) is None: raise Unsupported('strcmp')
        i, o = argno(I, p), zi(p.i)
        I.ob('strcmp: inside the argument', z3.And(o >= 0, o <= LEN(i)), 'safety')
        r = z3.Int('cmp!%d' % I.newid())
        o = z3.simplify(o)
        I.fact((r == 0) == z3.And([CH(i, o + k) == ord(c) for k, c in enumerate(cstr(q))] + [CH(i, o + len(cstr(q))) == 0]))
        return r
    class Do:
        def applies(self, node): return True
        def apply(self, I, node, tu, this, a):
            s = st(I); w = models.zstr(I.deref_lv(a[1])); o = I.deref_lv(a[2])
            p = I.deref_lv(a[0])
            if not isinstance(o, SeqV): raise Unsupported('list of notations')
            I.ob('main: nothing is processed after help or version', z3.And(z3.BoolVal(s.d['shown'] == ''), z3.Not(QUIT(ARGC))), 'post')
            ok = isinstance(p, OpaqueV) and p.t == 'Parser'
            I.ob('main: word segmentation as asked for', z3.And(z3.BoolVal(ok), zb(p.d['brk']) == BREAK(ARGC)) if ok else z3.BoolVal(False), 'post')
            I.ob('main: the dictionary asked for is loaded first', z3.And(z3.BoolVal(s.d['loaded'] == 'yes'), s.d['dict'] == DICT(ARGC)), 'post')
            # the notations
            n, at = zi(o.n), lambda k: elem(o, k)
            J, G = JSON(ARGC), GROUP(ARGC)
            arg(I, D)
            dflt = [('Thai', 0), ('Roman', 1), ('Phonetic', 2)]
            I.ob('main: one block per notation asked for', n == z3.If(NOUT(ARGC) == 0, 3, NOUT(ARGC)), 'post')
            e = at(NOUT(D))
            I.ob('main: the notations asked for, in order', z3.Implies(z3.And(D >= 1, D < ARGC, outopt(D)), z3.And(e.k == kind(D), e.f == fmt(J, G))), 'post')
            for k, j in dflt:
                e = at(z3.IntVal(j))
                I.ob('main: the usual notations by default', z3.Implies(NOUT(ARGC) == 0, z3.And(e.k == CODE[k], e.f == fmt(J, G))), 'post')
            # the word
            x = I.ghost.get('getline')
            if x is not None and w.eq(x[1]):
                I.ob('main: input is read only without words on the command line', NOPT(ARGC) == ARGC - 1, 'post')
                I.ob('main: lines are processed in order, once', s.d['done'] == x[0], 'post')
                I.write(I.ghost['st'], s.but(done=s.d['done'] + 1)); return
            if not (z3.is_app(w) and w.decl().eq(ARG) and z3.is_int_value(w.arg(1)) and w.arg(1).as_long() == 0): raise Unsupported('word processed is not an argument')
            i = w.arg(0); arg(I, i)
            I.ob('main: options are not words', z3.And(i >= 1, i < ARGC, z3.Not(opt(i))), 'post')
            I.ob('main: words are processed in order, once', i > s.d['last'], 'post')
            I.write(I.ghost['st'], s.but(last=i, seen=s.d['seen'] + z3.If(i == A, 1, 0)))
    def show(what):
        def h(I, this, a, node):
            s = st(I)
            I.write(I.ghost['st'], s.but(shown=s.d['shown'] + what)); return None
        return h
    class Show:
        def __init__(self, what): self.what = what
        def applies(self, node): return True
        def apply(self, I, node, tu, this, a): return show(self.what)(I, this, a, node)
    class Load:
        def applies(self, node): return True
        def apply(self, I, node, tu, this, a):
            s = st(I); p = I.deref_lv(a[0])
            if isinstance(p, CStrV): d = z3.IntVal(0) if cstr(p) is None or cstr(p).endswith('/except.dic') else z3.IntVal(-1)
            else:
                i = argno(I, p)
                I.ob('main: path of the dictionary', zi(p.i) == 2, 'post'); d = i
            I.ob('main: nothing is loaded after help or version', z3.BoolVal(s.d['shown'] == ''), 'post')
            I.write(I.ghost['st'], s.but(loaded='yes', dict=d))
            return z3.Bool('loaded!%d' % I.newid())
    def getline(I, this, a, node):
        s = st(I)
        k = z3.simplify(s.d['read'])
        ok = k < NLINES
        if not I.branch(ok): return False
        I.write(a[1], LINE(k)); I.ghost['getline'] = (k, LINE(k))
        I.write(I.ghost['st'], s.but(read=k + 1))
        return True
    def loop(I, i, n):
        def cands(ctx):
            I, out = ctx.I, []
            s = st(I)
            nums, bools, seqs = [], [], []
            for nm, lv in ctx.names0.items():
                try: v = I.deref_lv(lv)
                except Exception: continue
                if nm == 'argc': continue
                if isinstance(v, bool) or z3.is_expr(v) and z3.is_bool(v): bools.append((nm, zb(v)))
                elif I.num(v) is not None and not isinstance(v, IterV): nums.append((nm, zi(v)))
                elif isinstance(v, SeqV) and v.et == PTR: seqs.append((nm, v))
                elif isinstance(v, PtrV) and v.lv is None or isinstance(v, IterV): nums.append((nm + '*', DPtr(I, v)))
            idx = [(nm, x) for nm, x in nums if not nm.endswith('*')]
            for nm, x in idx + ([('end', ARGC)] if True else []):
                arg(I, x)
                if nm != 'end': out += [(nm + ' range', z3.And(x >= 1, x <= ARGC)), (nm + ' last', s.d['last'] < x), (nm + ' words', z3.And(s.d['last'] < x, s.d['seen'] == z3.If(z3.And(A >= 1, A < x, z3.Not(opt(A))), 1, 0))),
                            (nm + ' going on', z3.Not(QUIT(x)))]
                for b, v in bools: out += [('%s %s %s' % (b, t, nm), v == e) for t, e in (('json', JSON(x)), ('group', GROUP(x)), ('break', BREAK(x)), ('nobreak', z3.Not(BREAK(x))))]
                for m, y in nums:
                    if m.endswith('*'): out.append(('%s dict %s' % (m, nm), y == DICT(x)))
                    elif m != nm: out += [('%s options %s' % (m, nm), y == NOPT(x)), ('%s words %s' % (m, nm), y == x - 1 - NOPT(x))]
                for q, v in seqs:
                    e = elem(v, NOUT(D))
                    if isinstance(e, OutK):
                        out += [('%s outputs %s' % (q, nm), zi(v.n) == NOUT(x)), ('%s notation %s' % (q, nm), z3.Implies(z3.And(D >= 1, D < x, outopt(D)), z3.And(NOUT(D) < NOUT(x), e.k == kind(D), e.f == fmt(JSON(ARGC), GROUP(ARGC)))))]
            e = ctx.at_entry(I.ghost['st'])
            out += [('same ' + k, s.d[k] == e.d[k]) for k in ('last', 'seen', 'done', 'read', 'dict')]
            out += [('lines', s.d['done'] == s.d['read']), ('read', z3.And(s.d['read'] >= 0, s.d['read'] <= NLINES))]
            for q, v in seqs: out += [(q + '.n', zi(v.n) == zi(ctx.at_entry(ctx.names0[q]).n))]
            return out
        def lex(ctx): return (NLINES - st(ctx.I).d['read'],) if reads(n) else None
        return dict(inv=lambda ctx: [], cands=cands, lex=lex, havoc=anyarg, about=lambda v: not isinstance(v, SeqV), modifies=lambda I, lvs: lvs + ([I.ghost['st']] if calls(n) else []))
    def calls(n): return n['kind'] in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr') or any(calls(c) for c in n.get('inner', []))
    def reads(n): return (n.get('referencedDecl') or {}).get('name') == 'getline' or any(reads(c) for c in n.get('inner', []))
    def DPtr(I, v):
        """number of the argument of a dictionary path, 0 for none"""
        if isinstance(v, PtrV): return z3.IntVal(0)
        if v.c.loc == I.ghost['chars'].loc and len(v.c.path) == 1:
            x = z3.If(zi(v.i) == 2, zi(v.c.path[0][1]), -1)
            return x if v.nul is False else z3.If(zb(v.nul), 0, x)
        return z3.IntVal(-1)
    def run(I):
        if not f: raise Unsupported('main')
        I.fact(z3.And(ARGC >= 1, ARGC < 2**30, NLINES >= 0))
        I.fact(z3.Implies(QUIT(ARGC), z3.And(H >= 1, H < ARGC, halt(H))))
        for x in (z3.IntVal(0), ARGC, A, D, H): arg(I, x)
        I.ghost['chars'] = I.alloc(SeqV('chars', ARGC, lambda i: SeqV('char', LEN(zi(i)) + 1, lambda j: CH(zi(i), zi(j)), kind='array'), kind='array'))
        def argv(i):
            arg(I, i); return IterV(I.ghost['chars'].e(i), 0)
        av = IterV(I.alloc(SeqV('const char *', ARGC, argv, kind='array')), 0)
        I.ghost['st'] = I.alloc(StateV(last=z3.IntVal(0), seen=z3.IntVal(0), done=z3.IntVal(0), read=z3.IntVal(0), shown='', loaded='', dict=z3.IntVal(-2)))
        r = zi(I.deref_lv(I.call(f[0][0], f[0][1], None, [ARGC, av], inline=True)))
        s = st(I)
        I.ob('main: help is shown when asked for', z3.Implies(z3.And(QUIT(ARGC), usage(H)), z3.BoolVal(s.d['shown'] == 'U')), 'post')
        I.ob('main: the version is shown when asked for', z3.Implies(z3.And(QUIT(ARGC), version(H)), z3.BoolVal(s.d['shown'] == 'V')), 'post')
        if s.d['shown'] == '' and not I.branch(QUIT(ARGC)):
            I.ob('main: every word is processed once', z3.Implies(z3.And(A >= 1, A < ARGC), s.d['seen'] == z3.If(opt(A), 0, 1)), 'post')
            I.ob('main: every line is processed once', z3.Implies(NOPT(ARGC) == ARGC - 1, s.d['done'] == NLINES), 'post')
            I.ob('main: reports success', r == 0, 'post')
    return [vc.Task('thpronun main', run, ['main', 'LoadExceptDict'], hooks={'strcmp': strcmp, 'getline': getline, 'string_of': string_of},
                    contracts=dict({'Make%sOutput' % k: maker(k) for k in CODE}, DoParse=Do(), Version=Show('V'), Usage=Show('U'), **{'Parser::loadExceptDict': Load()}),
                    loopspecs={'main': loop}, fresh_hooks={PTR: freshout, 'Parser': parser_hook()})]
def parser_hook():
    def h(I, name, idx): raise Unsupported('parser')
    def construct(I, e, argn):
        vals = [I.rv(a) for a in argn if a['kind'] != 'CXXDefaultArgExpr']
        return OpaqueV('Parser', {'brk': zb(I.truth(vals[0])) if vals else z3.BoolVal(True)})
    h.construct = construct
    return h
def tasks(P): return make_tasks(P) + parse_tasks(P) + main_tasks(P)
