"""C18: phonetic codes distinguish; soundex and romanisation conflate."""
from contracts.spec import *
from contracts import render
BOUND = 'the compiled renderers on all 90,720 component combinations (complete)'
ASSUMPTIONS = ['Royal Institute romanisation table in contracts/c18.py (oracle)']
RI = dict(zip(SOUNDS, 'k kh ng ch ch y d t th n b p ph f m r l w s h'.split() + ['']))
RS = dict(NONE='', RA='r', LA='l', WA='w')
RV = dict(zip(VOWELS, [x for x in 'a i ue u e ae ia uea ua o o oe'.split() for _ in (0, 1)]))
RE = dict(zip(ENDS, [''] + 'k t p ng n m i o'.split()))
LONGV = dict(zip(VOWELS, [v for v in VOWELS[1::2] for _ in (0, 1)]))
def skey(k): return ('LA' if k[0] == 'RA' else k[0], LONGV[k[2]], k[3])

def phonetic(T, emit):
    by = {}
    bad = {s: [] for s in SOUNDS}
    for k, v in T.items():
        if k[1] != 'NONE' and k[0] == 'A': continue
        o = by.setdefault(v, k)
        if o != k:
            for x in (k, o): bad[x[0]].append('phonetic %s is shared by %s and %s' % (v, '/'.join(o), '/'.join(k)))
    for s in SOUNDS: emit('phonetic form of initial %s identifies the syllable' % s, bad[s])
def soundex(T, emit):
    b1 = {s: [] for s in SOUNDS}; b2 = {s: [] for s in SOUNDS}
    code = {}; key = {}
    for k, v in T.items():
        q = skey(k)
        c = code.setdefault(q, (v, k))
        if c[0] != v: b1[k[0]].append('soundex of %s is %s but of %s is %s' % ('/'.join(c[1]), c[0], '/'.join(k), v))
        o = key.setdefault(v, (q, k))
        if o[0] != q: b2[k[0]].append('soundex %s is shared by %s and %s' % (v, '/'.join(o[1]), '/'.join(k)))
    for s in SOUNDS:
        emit('soundex of initial %s ignores tone, length, cluster and r/l' % s, b1[s])
        emit('soundex of initial %s distinguishes everything else' % s, b2[s])
def roman(T, emit):
    for s in SOUNDS:
        bad = []
        for k, v in T.items():
            if k[0] != s: continue
            w = RI[k[0]] + RS[k[1]] + RV[k[2]] + RE[k[3]]
            if v != w: bad.append('romanisation of %s is %s, not %s' % ('/'.join(k), v, w))
        emit('romanisation of initial %s is the Royal Institute one' % s, bad)
J = dict(Phonetic=phonetic, Soundex=soundex, Roman=roman)
def tasks(P, tier):
    out = []
    for n, j in J.items():
        def run(P, I, t, n=n, j=j):
            j(render.table(P, I, n), lambda nm, bad: render.record(I, nm, bad))
        out.append(vc.Task(n + 'SylOutput::output', None, custom=run))
    return out
def bounded(B):
    T = render.compiled(B)
    if not T: return
    def emit(n, bad):
        for b in bad[:2]: B.fail(b)
    for n, j in J.items(): j(T[n], emit)
    for k in [('KA', 'RA', 'AA', 'KON', 'CHATTAWA'), ('MA', 'NONE', 'OE', 'KON', 'EK')]:
        B.sample('%s -> %s %s %s' % ('/'.join(k), T['Phonetic'].get(k), T['Soundex'].get(k), T['Roman'].get(k)))
