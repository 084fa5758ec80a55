"""C09: every syllable read from text is complete and every notation renders it."""
from contracts.spec import *
from contracts import render, parsedrv, parse, parsemain
BOUND = 'the compiled renderers on all 90,720 component combinations (complete); ' + parsedrv.BOUND
ASSUMPTIONS = parsemain.ASSUMPTIONS
def tasks(P, tier):
    out = []
    for n in render.NOTATIONS:
        def run(P, I, t, n=n):
            render.complete(I, render.table(P, I, n), n)
        out.append(vc.Task(n + 'SylOutput::output', None, custom=run))
    return out + parse.tasks(P, 'C09') + parsemain.tasks(P, 'C09')
def bounded(B):
    T = render.compiled(B)
    for n in T or {}:
        bad = [k for k, v in T[n].items() if not v or v.startswith('!')]
        for k in bad[:3]: B.fail('%s rendering of %s is "%s"' % (n, '/'.join(k), T[n][k]))
    parsedrv.run(B, '9', 'xr')
