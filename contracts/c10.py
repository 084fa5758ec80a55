"""C10: Sounds and tones come from the letters written."""
from contracts.spec import *
from contracts import parsedrv, parse, parsemain, c01
BOUND = parsedrv.BOUND
ASSUMPTIONS = parsemain.ASSUMPTIONS + c01.ASSUMPTIONS
def tasks(P, tier):
    return parse.tasks(P, 'C10') + c01.tasks(P, tier)
def bounded(B): parsedrv.run(B, '0', 'xr', False)
