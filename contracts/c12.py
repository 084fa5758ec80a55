"""C12: Exception dictionary entries override the rules."""
from contracts.spec import *
from contracts import parsedrv, parse, parsemain, dictv
BOUND = parsedrv.BOUND
ASSUMPTIONS = parsemain.ASSUMPTIONS + dictv.ASSUMPTIONS
def tasks(P, tier):
    return parsemain.tasks(P, 'C12') + parsemain.pool_tasks(P, 'C12') + parsemain.reading_tasks(P, 'C12') + parsemain.parse_word_tasks(P, 'C12') + dictv.match_tasks(P)
def bounded(B): parsedrv.run(B, '2', 'd', False)
