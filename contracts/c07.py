"""C07: Analysing any text finishes without crashing."""
from contracts.spec import *
from contracts import parsedrv, parse, parsemain
BOUND = parsedrv.BOUND
ASSUMPTIONS = parsemain.ASSUMPTIONS
BUILDS = ('std', 'asan')
def tasks(P, tier):
    return parse.tasks(P, 'C07') + parsemain.tasks(P, 'C07') + parsemain.pool_tasks(P, 'C07') + parsemain.entry_tasks(P, 'C07') + parsemain.parse_word_tasks(P, 'C07')
def bounded(B): parsedrv.run(B, '7', 'xrd', True)
