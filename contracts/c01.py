"""C01: consonant tables and tone rule."""
from contracts.spec import *
BOUND = 'complete enumeration of the 44 consonants and of class x mark x live/dead x length'
ASSUMPTIONS = ['Thai orthography tables and tone rules as written in contracts/spec.py']

def tasks(P, tier):
    E = Enums(P)
    def letters(q, tab, val):
        def run(I):
            c = z3.Int('c')
            I.assume(inset(c, [ord(x) for x in CONS]))
            r = call(I, q, None, [c])
            for nm, ls in tab.items():
                for l in ls: I.ob('%s(U+%04X)==%s' % (q, ord(l), nm), pimp(c == ord(l), eqv(r, val(nm))), 'post')
        return vc.Task(q, run, [q])
    cls = {'MID': MID, 'HIGH': HIGH, 'LOWP': LOWP, 'LOWS': LOWS}
    def tone(I):
        k, w = z3.Ints('k w'); d, s = z3.Bools('dead short')
        I.assume(inset(k, [E.c(x) for x in cls])); I.assume(inset(w, [E.t(x) for x in TONES]))
        r = call(I, 'ToneFromWritten', None, [k, w, d, s])
        for kk in cls:
            for ww in TONES:
                for dd in (True, False):
                    for sh in (True, False):
                        I.ob('tone(%s,%s,dead=%d,short=%d)' % (kk, ww, dd, sh),
                             pimp(pand([k == E.c(kk), w == E.t(ww), piff(d, dd), piff(s, sh)]), eqv(r, E.t(spoken_tone(kk, ww, dd, sh)))), 'post')
    def preds(I):
        e, v = z3.Ints('e v')
        I.assume(inset(e, [E.e(x) for x in ENDS])); I.assume(inset(v, [E.v(x) for x in VOWELS]))
        r = I.truth(call(I, 'IsDeadEndConsClass', None, [e]))
        I.ob('IsDeadEndConsClass', piff(r, inset(e, [E.e(x) for x in DEADENDS])), 'post')
        s = I.truth(call(I, 'IsShortVowel', None, [v]))
        I.ob('IsShortVowel', piff(s, inset(v, [E.v(x) for x in SHORT])), 'post')
    return [letters('InitConsClass', cls, E.c), letters('InitConsSound', SOUND, E.s), letters('EndConsClass', FINAL, E.e),
            vc.Task('ToneFromWritten', tone), vc.Task('ending and length predicates', preds)]

def bounded(B):
    exe = B.build().driver('drv_core')
    if not exe: B.skipped.append(B.build().err[-500:]); return
    rc, out, err, _ = B.run([exe, 'tables'])
    snd = {l: k for k, v in SOUND.items() for l in v}; fin = {l: k for k, v in FINAL.items() for l in v}
    n = 0
    for l in out.decode().split('\n'):
        f = l.split()
        if not f: continue
        n += 1
        if f[0] == 'T':
            c = chr(int(f[1], 16))
            for what, got, want in (('class', f[2], klass(c)), ('initial sound', f[3], snd[c]), ('final class', f[4], fin[c])):
                if got != want: B.fail('%s of %s (U+%s) is %s, should be %s' % (what, c, f[1], got, want))
        elif f[0] == 'R' and f[1] != 'INVALID':
            w = spoken_tone(f[1], f[2], f[3] == '1', f[4] == '1')
            if f[5] != w: B.fail('ToneFromWritten(%s,%s,dead=%s,short=%s) = %s, should be %s' % (f[1], f[2], f[3], f[4], f[5], w))
        elif f[0] == 'D' and (f[2] == '1') != (f[1] in DEADENDS): B.fail('IsDeadEndConsClass(%s)=%s' % (f[1], f[2]))
        elif f[0] == 'S' and (f[2] == '1') != (f[1] in SHORT): B.fail('IsShortVowel(%s)=%s' % (f[1], f[2]))
    if rc != 0: B.fail('drv_core tables exit %s %s' % (rc, err[-300:]))
    B.count(n, n); B.sample(out.decode().split('\n')[0])
