"""C17: the Thai respelling reads back."""
from contracts.spec import *
from contracts import render, thairead
BOUND = 'the compiled renderer on all 90,720 component combinations (complete)'
ASSUMPTIONS = ['the reading rules in contracts/thairead.py are the ordinary Thai spelling rules (oracle)']
def check(T, emit):
    for s in SOUNDS:
        for e in ENDS:
            bad = []
            for k, v in T.items():
                if k[0] == s and k[3] == e and thairead.spellable(k):
                    w = thairead.judge(k, v)
                    if w: bad.append('%s -> %s: %s' % ('/'.join(k), v, w))
            emit('respelling of initial %s, ending %s reads back' % (s, e), bad)
def tasks(P, tier):
    def run(P, I, t):
        T = render.table(P, I, 'Thai')
        render.complete(I, T, 'Thai')
        check(T, lambda n, bad: render.record(I, n, bad))
    return [vc.Task('ThaiSylOutput::output', None, custom=run)]
def bounded(B):
    T = render.compiled(B)
    if not T: return
    def emit(n, bad):
        for b in bad[:2]: B.fail(b)
    check(T['Thai'], emit)
    for k in [('KA', 'RA', 'AA', 'KON', 'CHATTAWA'), ('MA', 'NONE', 'OE', 'KON', 'EK')]: B.sample('%s -> %s' % ('/'.join(k), T['Thai'].get(k)))
