"""C11: Text that is not Thai is carried through."""
from contracts.spec import *
from contracts import parsedrv, parse, parsemain
BOUND = parsedrv.BOUND
ASSUMPTIONS = parsemain.ASSUMPTIONS
def tasks(P, tier):
    return parse.tasks(P, 'C11') + parsemain.tasks(P, 'C11') + parsemain.pool_tasks(P, 'C11') + parsemain.literal_tasks(P) + parsemain.parse_word_tasks(P, 'C11')
def bounded(B): parsedrv.run(B, '1', 'xrd', False)
