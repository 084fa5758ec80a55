"""Shared specification vocabulary (independent of /repo's tables)."""
import sys, os, z3
from vals import *
import interp, vc

# ---- Thai orthography (standard grammar) ---------------------------------
MID  = 'กจฎฏดตบปอ'
HIGH = 'ขฃฉฐถผฝศษสห'
LOWP = 'คฅฆชซฌฑฒทธพฟภฮ'
LOWS = 'งญณนมยรลวฬ'
CONS = [chr(c) for c in range(0xe01, 0xe2f) if c not in (0xe24, 0xe26)]
assert sorted(MID + HIGH + LOWP + LOWS) == CONS
SOUND = {'KA': 'ก', 'KHA': 'ขฃคฅฆ', 'NGA': 'ง', 'JA': 'จ', 'CHA': 'ฉชฌ', 'YA': 'ญย', 'DA': 'ฎด', 'TA': 'ฏต', 'THA': 'ฐฑฒถทธ',
         'NA': 'ณน', 'BA': 'บ', 'PA': 'ป', 'PHA': 'ผพภ', 'FA': 'ฝฟ', 'MA': 'ม', 'RA': 'ร', 'LA': 'ลฬ', 'WA': 'ว', 'SA': 'ซศษส',
         'HA': 'หฮ', 'A': 'อ'}
assert sorted(''.join(SOUND.values())) == CONS
FINAL = {'KOK': 'กขฃคฅฆ', 'KOT': 'จฉชซฌฎฏฐฑฒดตถทธศษส', 'KOP': 'บปผฝพฟภ', 'KONG': 'ง', 'KON': 'ญณนรลฬ', 'KOM': 'ม', 'KOEY': 'ย',
         'KOEW': 'ว', 'NONE': 'หอฮ'}
assert sorted(''.join(FINAL.values())) == CONS
TONES = ['SAMAN', 'EK', 'THO', 'TRI', 'CHATTAWA']
def klass(c): return 'MID' if c in MID else 'HIGH' if c in HIGH else 'LOWP' if c in LOWP else 'LOWS' if c in LOWS else None
def spoken_tone(cls, mark, dead, short):
    """the Thai tone rules; cls MID/HIGH/LOW*, mark a TONES name"""
    if mark == 'SAMAN':
        if not dead: return 'CHATTAWA' if cls == 'HIGH' else 'SAMAN'
        if cls in ('MID', 'HIGH'): return 'EK'
        return 'TRI' if short else 'THO'
    if cls in ('LOWP', 'LOWS'):
        return {'EK': 'THO', 'THO': 'TRI'}.get(mark, mark)
    return mark
SOUNDS = ['KA', 'KHA', 'NGA', 'JA', 'CHA', 'YA', 'DA', 'TA', 'THA', 'NA', 'BA', 'PA', 'PHA', 'FA', 'MA', 'RA', 'LA', 'WA', 'SA', 'HA', 'A']
SECS = ['NONE', 'RA', 'LA', 'WA']
VOWELS = ['A', 'AA', 'I', 'II', 'UE', 'UEE', 'U', 'UU', 'E', 'EE', 'AE', 'AEE', 'IA', 'IAA', 'UEA', 'UEAA', 'UA', 'UAA', 'O', 'OO', 'AU', 'AUU', 'OE', 'OEE']
SHORT = set(VOWELS[0::2])
ENDS = ['NONE', 'KOK', 'KOT', 'KOP', 'KONG', 'KON', 'KOM', 'KOEY', 'KOEW']
DEADENDS = {'KOK', 'KOT', 'KOP'}

# ---- helpers over the program --------------------------------------------
class Enums:
    """enumerator name -> value, read from /repo"""
    def __init__(self, P):
        self.P = P
    def __call__(self, e, n):
        try: return self.P.enums[e][n]
        except KeyError: raise Unsupported('no enumerator %s::%s' % (e, n))
    def s(self, n): return self('EInitConsSound', n)
    def c(self, n): return self('EInitConsClass', n)
    def i2(self, n): return self('ESecInitCons', n)
    def v(self, n): return self('EVowel', n)
    def e(self, n): return self('EEndConsClass', n)
    def t(self, n): return self('ETone', n)

def fn(P, q, npar=None, pred=None):
    try: r = P.one(q, npar, pred)
    except Unsupported: raise
    except Exception as e: raise Unsupported('function %s: %s' % (q, e))
    if r is None: raise Unsupported('function %s not found' % q)
    return r

def call(I, q, this=None, args=(), npar=None, pred=None, inline=False):
    f = fn(I.P, q, npar, pred)
    return I.call(f[0], f[1], this, list(args), inline=inline)

class Spec:
    """functional contract of a pure function: callers see spec(I, this, args)"""
    def __init__(self, spec, loops=None, when=None):
        self.spec, self.loops, self.when = spec, loops, when
    def applies(self, node): return self.when(node) if self.when else True
    def apply(self, I, node, tu, this, args): return self.spec(I, this, args)

def acc(I, lv):
    """components of a Syl through its public accessors"""
    g = lambda m: call(I, 'Syl::' + m, lv)
    return g('iCons1'), g('iCons2'), g('vowel'), g('eCons'), g('tone')

def inset(x, vals): return por([eqv(x, v) for v in vals])

def ctors(P, cls):
    """[(parameter types, node, tu)] of the constructors with a definition"""
    rec = P.records.get(cls)
    if rec is None: raise Unsupported('class %s' % cls)
    out = []
    for k, tu in rec.ctors:
        d = P.definition(tu, k)
        if d is None: continue
        out.append(([interp.ctype(x) for x in k.get('inner', []) if x['kind'] == 'ParmVarDecl'], d[0], d[1]))
    return out
def construct(I, cls, pred, args):
    for ps, n, tu in ctors(I.P, cls):
        if pred([p.replace('const ', '').replace(' ', '') for p in ps]):
            lv = I.alloc(I.default(cls))
            I.call(n, tu, lv, list(args))
            return lv
    raise Unsupported('constructor of %s' % cls)
