"""runs the text-analysis driver (harness/drv_parse.cxx)"""
import os, tempfile, shutil
WORDS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'words.txt')
BOUND = ('text analysis: about 800 dictionary and test words, every text of up to three characters over 47 representative ones (four in the '
         'thorough tier), random texts and mutated words of up to some 40 characters, arbitrary break positions, random exception dictionaries of up to 12 words')
def run(B, checks, modes='xrd', asan=False):
    d = tempfile.mkdtemp(prefix='parse')
    try:
        if 'x' in modes: B.drive('drv_parse', [checks, 'x', B.scale(3, 4, 4), B.seed, WORDS, d], timeout=400)
        if 'r' in modes: B.drive('drv_parse', [checks, 'r', B.scale(100000, 3000000, 1500000), B.seed, WORDS, d], timeout=400)
        if 'd' in modes: B.drive('drv_parse', [checks, 'd', B.scale(60000, 2000000, 1000000), B.seed, WORDS, d], timeout=400)
        if asan:
            B.drive('drv_parse', [checks, 'r', B.scale(5000, 60000, 40000), B.seed, WORDS, d], kind='asan', timeout=400)
            B.drive('drv_parse', [checks, 'd', B.scale(5000, 60000, 40000), B.seed, WORDS, d], kind='asan', timeout=400)
    finally: shutil.rmtree(d, ignore_errors=True)
