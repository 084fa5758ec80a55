"""C16: delimited and romanised line output."""
from contracts.spec import *
from contracts import outoracle
from contracts.strout import *
BOUND = 'random lists of up to 3 sequences of up to 6 syllables, literals and blanks, five notations, five delimiters'
ASSUMPTIONS = ['the text of a syllable is an arbitrary function of the syllable (the notations are the subject of C09, C17, C18)',
               'a literal has the components the literal constructor gives it; the first syllable renders to a non-empty text']

def syl_hook(I, name, idx):
    h = I.fresh_hooks.pop('Syl')
    try: v = I.fresh('Syl', name, idx)
    finally: I.fresh_hooks['Syl'] = h
    d = I.ghost.get('litdefaults')
    if d is not None:
        lv = I.alloc(v)
        I.fact(z3.Implies(zb(I.truth(call(I, 'Syl::isLiteral', lv))), zb(pand([eqv(a, b) for a, b in zip(acc(I, lv), d)]))))
    return v
syl_hook.real = True
def litdefaults(I):
    h = I.fresh_hooks.pop('Syl', None)
    s = construct(I, 'Syl', lambda ps: len(ps) == 2 and ps[0] == 'int' and ('u16string' in ps[1] or 'char16_t' in ps[1]), [1, SeqV('char16_t', 1, conc=[97], kind='u16')])
    r = acc(I, s)
    I.ghost['litdefaults'] = r
    if h: I.fresh_hooks['Syl'] = h
    return r
def blank(I, v):
    """the blank syllable, through the public comparison with a default syllable"""
    b = I.ghost.get('blank')
    if b is None: b = I.ghost['blank'] = construct(I, 'Syl', lambda ps: ps == ['int'], [-1])
    return I.truth(call(I, 'Syl::operator==', I.alloc(v), [b]))
def render(I, this, args, node):
    r = render_hook(I, this, args, node)
    if r is not NotImplemented: I.fact(z3.Implies(zb(blank(I, I.deref_lv(args[0]))), r == z3.StringVal(' ')))
    return r

def tasks(P, tier):
    E = Enums(P); out = []
    def seq(I, cls):
        litdefaults(I)
        I.fresh_hooks = dict(I.fresh_hooks); I.fresh_hooks['Syl'] = syl_hook
        this = I.alloc(I.fresh(cls, 'this'))
        s = I.alloc(I.fresh('SylString', 's'))
        C = call(I, 'SylString::begin', s, pred=lambda n: 'const' in n['type']['qualType']).c
        n = I.read(C).n
        el = lambda k: I.read(C.e(k))
        bl = lambda k: zb(blank(I, el(k)))
        return this, s, C, n, el, bl
    def delim(I):
        this, s, C, n, el, bl = seq(I, 'DelimOutput')
        d = I.read(this).f
        dl = [x for x in d.values() if not isinstance(x, PtrV)]
        if len(dl) != 1: raise Unsupported('delimiter member')
        from models import chr_str
        D = chr_str(dl[0]) if not z3.is_string(dl[0]) else dl[0]
        first = lambda k: z3.Or(k == 0, bl(k - 1))
        item = lambda k: z3.If(bl(k), z3.StringVal(' '), R(I, el(k)))
        sep = lambda k: z3.If(z3.Or(bl(k), first(k)), z3.StringVal(''), D)
        J = Join(I, 'delim', [], item, sep, flags=(first, lambda k: z3.Not(first(k))))
        I.ghost['joins'] = lambda I, c: [J] if c.same(C) else []
        r = call(I, 'DelimOutput::output', this, [s], pred=ov('SylString'), inline=True)
        I.ob('delimited reading: syllables in order, one delimiter between neighbours, a space for a blank', eqv(r, J.at(n)), 'post')
    def roman(I):
        this, s, C, n, el, bl = seq(I, 'RomanOutput')
        caps = [x for x in I.read(this).f.values() if isz(x) and z3.is_bool(x)]
        if len(caps) != 1: raise Unsupported('capitalisation member')
        A = lambda k, m: call(I, 'Syl::' + m, I.alloc(el(k)))
        lit = lambda k: zb(I.truth(call(I, 'Syl::isLiteral', I.alloc(el(k)))))
        hy = lambda k: z3.And(z3.Not(bl(k - 1)), z3.Or(zb(eqv(A(k, 'iCons1'), E.s('A'))), z3.And(zb(eqv(A(k, 'iCons1'), E.s('NGA'))), z3.Or(lit(k - 1), zb(eqv(A(k - 1, 'eCons'), E.e('NONE')))))))
        item = lambda k: z3.If(bl(k), z3.StringVal(' '), R(I, el(k)))
        sep = lambda k: z3.If(z3.And(z3.Not(bl(k)), hy(k)), z3.StringVal('-'), z3.StringVal(''))
        J = Join(I, 'roman', [], item, sep, start=1, flags=(lambda k: bl(k - 1), lambda k: z3.Not(bl(k - 1)), lambda k: z3.Or(k == 0, bl(k - 1))))
        I.ghost['joins'] = lambda I, c: [J] if c.same(C) else []
        first = R(I, el(0))
        I.assume(z3.Implies(n > 0, z3.And(z3.Length(first) > 0, z3.StrToCode(z3.SubString(first, 0, 1)) <= 255)))
        r = call(I, 'RomanOutput::output', this, [s], pred=ov('SylString'), inline=True)
        c0 = z3.StrToCode(z3.SubString(first, 0, 1))
        up = z3.Concat(z3.StrFromCode(z3.If(z3.And(c0 >= 97, c0 <= 122), c0 - 32, c0)), z3.SubString(first, 1, z3.Length(first) - 1))
        f = z3.If(caps[0], up, first)
        I.ob('romanised reading: syllables in order, hyphens exactly where the rule asks, capital first letter on demand',
             eqv(r, z3.If(n == 0, z3.StringVal(''), z3.Concat(f, J.at(n)))), 'post')
    def lines(cls):
        def run(I):
            this = I.alloc(I.fresh(cls, 'this')); l = I.alloc(I.fresh('std::list<SylString>', 'l'))
            O = z3.Function('text', AStr, SS)
            def outp(I, this, args, node):
                if pkind(node) != 'SylString': return NotImplemented
                return O(I.deref_lv(args[0]))
            I.hooks = dict(I.hooks); I.hooks[cls + '::output'] = outp
            n = I.read(l).n
            J = Join(I, 'lines', [], lambda k: z3.Concat(O(I.read(l.e(k))), z3.StringVal('\\u{a}')), lambda k: z3.StringVal(''))
            I.ghost['joins'] = lambda I, c: [J] if c.same(l) else []
            r = call(I, cls + '::output', this, [l], pred=ov('list'), inline=True)
            I.ob('%s: one line per reading, in order' % cls, eqv(r, J.at(n)), 'post')
        fh = dict(FH); fh['SylString'] = abs_string
        return vc.Task(cls + '::output(list)', run, fresh_hooks=fh, loopspecs=Everywhere())
    hk = {'ISylOutput::output': render, 'RomanSylOutput::output': render}
    out.append(vc.Task('DelimOutput::output(SylString)', delim, hooks=hk, fresh_hooks=dict(FH), loopspecs=Everywhere()))
    out.append(vc.Task('RomanOutput::output(SylString)', roman, hooks=hk, fresh_hooks=dict(FH), loopspecs=Everywhere()))
    for cls in ('RawSylOutput', 'ThaiSylOutput', 'RomanSylOutput', 'PhoneticSylOutput', 'SoundexSylOutput'):
        def sp(I, cls=cls):
            o = I.alloc(StructV(cls, {}))
            r = call(I, cls + '::output', o, [construct(I, 'Syl', lambda ps: ps == ['int'], [I.fresh('int', 'end')])], inline=True)
            I.ob('%s writes a blank as one space' % cls, eqv(r, ' '), 'post')
        out.append(vc.Task(cls + '::output(blank)', sp))
    for cls in ('DelimOutput', 'RomanOutput'):
        out.append(lines(cls)); dag_task(P, cls, out)
    return out

def bounded(B):
    outoracle.bounded(B, B.scale(1500, 40000, 8000), {'delim', 'delim1', 'roman', 'roman1'})
