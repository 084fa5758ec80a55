"""Reader of Thai (re)spelling: an independent statement of the ordinary Thai
spelling and tone rules, used as the oracle of C17."""
import re
from contracts.spec import *
PH = 'ฺ'
SND = {l: k for k, v in SOUND.items() for l in v}
FIN = {l: k for k, v in FINAL.items() for l in v if k != 'NONE'}
MARK = {'': 'SAMAN', '่': 'EK', '้': 'THO', '๊': 'TRI', '๋': 'CHATTAWA'}
SEC = {'': 'NONE', 'ร': 'RA', 'ล': 'LA', 'ว': 'WA'}
LONG = dict(zip(VOWELS[0::2], VOWELS[1::2]))
_re = re.compile('^([เแโ]?)(ห%s(?=[งญณนมยรลวฬ])|)([ก-ฮ])(?:%s([รลว]))?([ัิีึืุู]?)([็่้๊๋]?)(.*)$' % (PH, PH), re.S)

def rime(lead, sign, tk, tail):
    """-> (vowel, ending) or None"""
    def end(t):
        if t == '': return 'NONE'
        return FIN.get(t) if len(t) == 1 else None
    e = end(tail)
    if tk and not (sign == '' and ((lead == '' and tail[:1] in ('อ', 'ว') and len(tail) == 2) or (lead in ('เ', 'แ') and e not in (None, 'NONE')))):
        return None
    if lead == '':
        if sign == 'ั':
            if tail == 'ว': return 'UAA', 'NONE'
            if tail == 'วะ': return 'UA', 'NONE'
            return ('A', e) if e not in (None, 'NONE', 'KOEW') else None
        if sign == 'ื':
            if tail == 'อ': return 'UEE', 'NONE'
            return ('UEE', e) if e not in (None, 'NONE') else None
        if sign: 
            v = {'ิ': 'I', 'ี': 'II', 'ึ': 'UE', 'ุ': 'U', 'ู': 'UU'}[sign]
            return (v, e) if e else None
        if tail == 'ะ': return 'A', 'NONE'
        if tail[:1] == 'า':
            e = end(tail[1:]); return ('AA', e) if e else None
        if tail[:1] == 'อ':
            e = end(tail[1:])
            return ('AU' if tk else 'AUU', e) if e else None
        if tail[:1] == 'ว' and len(tail) == 2:
            e = end(tail[1:]); return ('UA' if tk else 'UAA', e) if e else None
        return ('O', e) if e not in (None, 'NONE') else None
    if lead == 'เ':
        if sign == '':
            if tail == 'า': return 'A', 'KOEW'
            if tail == 'าะ': return 'AU', 'NONE'
            if tail == 'ะ': return 'E', 'NONE'
            if tail == 'อ': return 'OEE', 'NONE'
            if tail == 'อะ': return 'OE', 'NONE'
            if tail == 'ย' and not tk: return 'OEE', 'KOEY'
            return ('E' if tk else 'EE', e) if e else None
        if sign == 'ิ': return ('OEE', e) if e not in (None, 'NONE') else None
        if sign in ('ี', 'ื'):
            s, v = {'ี': ('ย', 'IA'), 'ื': ('อ', 'UEA')}[sign]
            if tail[:1] != s: return None
            if tail[1:] == 'ะ': return v, 'NONE'
            e = end(tail[1:]); return (v + 'A', e) if e else None
        return None
    if sign: return None
    if tail == 'ะ': return ('AE' if lead == 'แ' else 'O'), 'NONE'
    if not e: return None
    if lead == 'แ': return ('AE' if tk else 'AEE'), e
    return 'OO', e

def read(s):
    """-> (sound, cluster, vowel, ending, tone) by the ordinary rules, or None"""
    m = _re.match(s)
    if not m: return None
    lead, ho, c, sec, sign, tm, tail = m.groups()
    r = rime(lead, sign, tm == '็', tail)
    if not r: return None
    v, e = r
    cls = 'HIGH' if ho else klass(c)
    dead = e in DEADENDS or (e == 'NONE' and v in SHORT)
    return SND[c], SEC[sec or ''], v, e, spoken_tone(cls, MARK.get(tm, 'SAMAN'), dead, v in SHORT)

# not Thai syllables: a cluster on a silent or h initial, and the rime e + y,
# whose spelling would be that of oe + y
def spellable(k):
    i1, i2, v, e, t = k
    if i2 != 'NONE' and i1 in ('A', 'HA'): return False
    if v in ('E', 'EE') and e == 'KOEY': return False
    return True
def unwritten_length(k, s):
    """Thai spelling has no separate short form for these"""
    i1, i2, v, e, t = k
    if e == 'NONE': return False
    if v in ('IA', 'UEA', 'OE'): return True
    return v in ('E', 'AE', 'UA', 'AU') and any(x in s for x in '่้๊๋')
def judge(k, s):
    """None, or what is wrong with respelling s of syllable k"""
    i1, i2, v, e, t = k
    if s is None: return 'no output'
    r = read(s)
    if r is None: return 'unreadable'
    if r[0] != i1: return 'initial reads %s' % r[0]
    if r[1] != i2: return 'cluster reads %s' % r[1]
    if r[3] != e: return 'ending reads %s' % r[3]
    if r[2] != v and not (v in SHORT and r[2] == LONG[v] and unwritten_length(k, s)): return 'vowel reads %s' % r[2]
    dead = e in DEADENDS or (e == 'NONE' and v in SHORT)
    if r[4] != t and not (t == 'SAMAN' and dead): return 'tone reads %s' % r[4]
    return None
