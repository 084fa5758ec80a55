"""C13: dictionary lookup reports exactly the stored words and their data."""
import tempfile, shutil
from contracts.spec import *
from contracts import dictv
ASSUMPTIONS = dictv.ASSUMPTIONS
BOUND = 'random dictionaries of up to 14 words, random texts and positions, files cut at sampled (a quarter of them: all) lengths, missing files, impossible sizes; with address sanitizer'
BUILDS = ('std', 'asan')
def tasks(P, tier): return dictv.open_tasks(P) + dictv.match_tasks(P)
def bounded(B):
    d = tempfile.mkdtemp(prefix='dict')
    try:
        B.drive('drv_dict', [B.scale(300, 6000, 2000), B.seed, d])
        B.drive('drv_dict', [B.scale(30, 600, 300), B.seed + 1, d], kind='asan')
    finally: shutil.rmtree(d, ignore_errors=True)
