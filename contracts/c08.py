"""C08: Every pronunciation accounts for the whole text."""
from contracts.spec import *
from contracts import parsedrv, parse, parsemain
BOUND = parsedrv.BOUND
ASSUMPTIONS = parsemain.ASSUMPTIONS
def tasks(P, tier):
    return parsemain.data_tasks(P) + parse.tasks(P, 'C08') + parsemain.tasks(P, 'C08') + parsemain.pool_tasks(P, 'C08') + parsemain.reading_tasks(P, 'C08') + parsemain.parse_word_tasks(P, 'C08')
def bounded(B): parsedrv.run(B, '8', 'xrd', False)
