"""C21: Silent letters, unwritten vowels and other special spellings are read by their rules."""
from contracts.c20 import *
from contracts import c20
BOUND = 'every unit of the property with sampled initials, finals and silenced letters, alone where it can stand alone, and in sampled sequences with regular syllables'
ASSUMPTIONS = c20.ASSUMPTIONS + ['regular syllables among the special ones are read as written (discharged by C20, for any following text without a silencing mark near its beginning)']
KOPEN = [(x[0] + 'K',) + x[1:] for x in OPEN]
JOPEN = [(x[0] + 'J',) + x[1:] for x in OPEN if x[0] in ('CิT', 'CีT', 'CึT', 'CุT', 'CูT', 'โCT', 'โCTะ')]
LCLOSED = [(x[0] + 'L',) + x[1:] for x in CLOSED]
SILENT = [(f + x, v) for f, v in (('Cั', 'A'), ('CTา', 'AA'), ('Cิ', 'I'), ('Cี', 'II'), ('Cุ', 'U'), ('Cู', 'UU'), ('เCT', 'EE'), ('โCT', 'OO'), ('เCีTย', 'IAA')) for x in 'QU']
RO = [('CTร', 'AUU', 'KON'), ('CTรK', 'AUU', 'KON'), ('CTรร', 'A', 'KON'), ('CTรรK', 'A', 'KON'), ('CTรรF', 'A'), ('CTรรFL', 'A')]
AURA = 'กคจทธนบปภมวสหอ'
def tasks(P, tier):
    V, opt, helpers = parts(P, 'C21')
    E = V.E
    T = []
    def unit(name, rule, build, **check):
        def run(I):
            u = Spelling(V, I, 0, '', 'A')
            u.f = rule
            build(u, I)
            u.check('%s' % name, **check)
        q = RULE.get(rule[:1], 'ParseThCons')
        T.append(vc.Task('%s %s' % (q, name), run, [q] + FNS, **opt))
    NONE, RA = zi(E.i2('NONE')), zi(E.i2('RA'))
    ra = lambda k: (zi(E.s('RA')), k, NONE)
    LOWS_ = zi(E.c('LOWS'))
    def bare(u, I): a = u.ch(iscons); u.ini = (SND(a), CLS(a), NONE)
    for ls in ('', 'ร', 'ล', 'ว', 'ด', 'others'):
        unit('a consonant before another syllable%s is read with an unwritten a' % (ls and ' in ' + ls), 'C', bare, alone=False,
             next=lambda c, *_, ls=ls: isld(c) if not ls else z3.And(iscons(c), z3.Not(oneof(c, 'รลวด')) if len(ls) > 1 else c == ord(ls)))
    def aura(u, I): a = u.ch(lambda c: oneof(c, AURA)); u.unwritten(a, 'AUU'); u.ch(lambda c: c == 0xe23); u.ini = ra(LOWS_)
    unit('consonant and ร before another syllable are read -o ra', 'C', aura, alone=False, next=lambda c, *_: c != 0xe23)
    def bori(l, s, v):
        def build(u, I):
            a = u.ch(lambda c: c == ord(l)); u.unwritten(a, 'AUU'); u.ch(lambda c: c == 0xe23); u.ch(lambda c: c == ord(s)); u.ini = ra(LOWS_); u.vowel = zi(E.v(v))
        return build
    unit('บริ before another syllable is read bo ri', 'C', bori('บ', 'ิ', 'I'), alone=False)
    unit('จระ before another syllable is read cho ra', 'C', bori('จ', 'ะ', 'A'), alone=False)
    def bodi(u, I): a = u.ch(lambda c: c == ord('บ')); u.ini = (SND(a), CLS(a), NONE); u.vowel = zi(E.v('AUU'))
    unit('บ before ดิ or ดี is read bo', 'C', bodi, alone=False, next=lambda c, d, more: z3.And(c == ord('ด'), more, oneof(d, 'ิี')))
    # ฤ, ฦ
    def ru(u, I, both=True):
        a = u.ch(isru if both else lambda c: c == 0xe24)
        u.ini = (z3.If(a == 0xe26, zi(E.s('LA')), zi(E.s('RA'))), LOWS_, NONE)
        return a
    def ru0(u, I): ru(u, I); u.vowel = zi(E.v('UE'))
    unit('ฤ or ฦ at the end or before a consonant that begins a syllable is read rue or lue', 'R', ru0,
         next=lambda c, d, more: z3.And(iscons(c), z3.Or(FIN(c) == E.e('NONE'), z3.And(more, z3.Not(parsemain.sylstart(d))))))
    def ruu(u, I): ru(u, I); u.ch(lambda c: oneof(c, 'ๅา')); u.vowel = zi(E.v('UEE'))
    unit('ฤๅ or ฦๅ is read ruue or luue', 'R', ruu)
    def closed(u, I, no=''):
        c = u.ch(iscons, lambda c: FIN(c) != E.e('NONE'), lambda c: z3.Not(oneof(c, no))); u.fin = FIN(c)
        if I.choose(2): u.letter('L')
    def ruf(u, I): ru(u, I); u.vowel = zi(E.v('UE')); closed(u, I, 'ณทษ')
    unit('ฤ or ฦ with a final letter is read rue or lue', 'R', ruf)
    def rif(u, I):
        a = ru(u, I, False); u.vowel = zi(E.v('I')); c = u.ch(lambda c: z3.And(oneof(c, 'ณทษ'), FIN(c) != E.e('NONE'))); u.fin = FIN(c)
        if I.choose(2): u.letter('L')
    unit('ฤ with final ณ ท ษ is read ri', 'R', rif)
    consru = [('กตทป', 'ri in a cluster', RA, 'I', None), ('ว', 'rue in a cluster', RA, 'UE', None), ('ศส', 'i', NONE, 'I', None), ('ศส', 'a ri', NONE, 'I', 'k'), ('น', 'a rue', NONE, 'UE', 'l')]
    def cru(ls, c2, v, pre, final):
        def build(u, I):
            a = u.ch(lambda c: oneof(c, ls)); u.ch(lambda c: c == 0xe24)
            u.ini = (SND(a), CLS(a), c2) if not pre else ra(CLS(a) if pre == 'k' else LOWS_)
            if pre: u.unwritten(a)
            u.vowel = zi(E.v(v))
            if final: closed(u, I, 'รว')
        return build
    for ls, how, c2, v, pre in consru:
        unit('%s and ฤ before a consonant are read %s' % (' '.join(ls), how), 'C', cru(ls, c2, v, pre, False), alone=False, next=lambda c, *_: z3.And(iscons(c), z3.Not(oneof(c, 'รวอ'))))
        unit('%s and ฤ with a final letter are read %s' % (' '.join(ls), how), 'C', cru(ls, c2, v, pre, True))
    unit('ค พ and ฤ with a final letter are read rue in a cluster', 'C', cru('คพ', RA, 'UE', None, True))
    unit('ค พ and ฤ before a letter that ends no syllable are read a rue', 'C', cru('คพ', NONE, 'UE', 'l', False), alone=False, next=lambda c, *_: z3.Or(isld(c), FIN(c) == E.e('NONE')))
    T += [form(V, opt, 3, *x) for x in OPEN + CLOSED + RO] + [form(V, opt, k, *x) for x in KOPEN + JOPEN + LCLOSED + SILENT + RO for k in range(3)]
    return whole_tasks(P, 'C21', True) + parsemain.pool_tasks(P, 'C21') + parsemain.parse_word_tasks(P, 'C21') + T + helpers
def bounded(B):
    B.drive('drv_special', [B.seed, B.scale(60000, 1000000, 400000)], timeout=B.scale(120, 600, 200))
