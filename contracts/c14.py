"""C14: dictionary generation stores every entry faithfully."""
import tempfile, shutil, random, os
from contracts.spec import *
from contracts import gendict
ASSUMPTIONS = gendict.ASSUMPTIONS
BOUND = 'words outside the Thai block (refused or stored exactly), random lists of up to 400 entries (lines of up to 254 bytes), sizes chosen around the growth points of the data bank; generator built with address sanitizer'
BUILDS = ('asan',)
def lists(B):
    rnd = random.Random(B.seed)
    for k in range(B.scale(60, 1500, 500)):
        mode = rnd.randrange(6)
        n = rnd.choice([1, 1, 2, 3, 5, 10, 30, 100, 400]) if mode else 1
        out = []; total = 0
        for _ in range(n):
            w = ''.join(chr(0xe01 + rnd.randrange(0x5b)) for _ in range(rnd.choice([1, 2, 3, 5, 8, 20]) if rnd.random() < .9 else rnd.choice([40, 60, 83])))
            room = 254 - len(w.encode()) - 1
            m = rnd.choice([0, 1, 3, 6, 20, room, room - 1]) if mode != 1 else rnd.randrange(0, max(1, room))
            if mode == 2 and total % 256 > 3:      # hit a power of two exactly (or by one)
                need = 256
                while need < total: need *= 2
                m = need - total - 1 + rnd.choice([-1, 0, 1])
            m = max(0, min(m, room))
            s = ''.join(rnd.choice('abcdeKJ_@-0123456789,;') for _ in range(m)) if rnd.random() < .9 else ('\t' + 'ก' * ((m - 1) // 3) if m > 1 else '')
            total += len(s.encode()) + 1
            out.append(w + '\t' + s)
        if rnd.random() < .3: out.append(out[0].split('\t')[0] + '\tagain')
        yield out, rnd.random() < .85
def big(B):
    """28 MB of data: every byte of the size in use, highest bits of the lower three too"""
    rnd = random.Random(B.seed + 1); out = []
    for i in range(130000):
        w, j = '', i
        for _ in range(4): w += chr(0xe01 + j % 46); j //= 46
        out.append(w + '\t' + '%07d' % i + rnd.choice("abc@") * 208)
    return out
def strange():
    """words that differ from Thai ones in the high bits only, and other scripts"""
    for c in (0x8e01, 0x4e01, 0x2e01, 0x1e01, 0x10e01, 0x20e01, 0x40e01, 0x80e01, 0x100e01, 0x601, 0x41, 0xe9, 0x7ff, 0x800, 0xffff, 0x10000):
        yield ['\u0e01\u0e32\tkaa', '%c\u0e32\tother' % c]
def tasks(P, tier): return gendict.tasks(P)
def bounded(B):
    b = B.build('asan'); g = b.gendict()
    if not g: B.skipped.append('generator: %s' % (b.err or '')[-500:]); return
    d = tempfile.mkdtemp(prefix='gen')
    try:
        for i, (l, nl, must) in enumerate([(l, nl, True) for l, nl in lists(B)] + [(l, True, False) for l in strange()] + ([(big(B), True, True)] if B.suspect or B.tier == 'thorough' else [])):
            t, o = os.path.join(d, 'in.tsv'), os.path.join(d, 'out.dic')
            data = '\n'.join(l).encode() + (b'\n' if nl else b'')
            open(t, 'wb').write(data)
            rc, out, err, _ = B.run([g if len(l) < 1000 else B.build('std').gendict() or g, t, o], timeout=120)
            if rc is None and len(l) >= 1000: B.skipped.append('large list: time ran out'); continue
            if rc != 0 and not must and b'Sanitizer' not in err: continue      # refusing such a list is right
            if rc != 0:
                B.fail('generating a dictionary from the list %r... (%d lines) failed with exit %s: %s' % (l[:3], len(l), rc, (out + err)[-500:].decode('utf8', 'replace')), list=data.decode()[:3000]); continue
            n = len(B.fails)
            B.drive('drv_dict', ['v', t, o], timeout=60)
            for j in range(n, len(B.fails)): B.fails[j] = (B.fails[j][0] + ' [list of %d lines]' % len(l), dict(list=data.decode()[:3000]))
            if i < 3: B.sample(repr(l[:2]))
    finally: shutil.rmtree(d, ignore_errors=True)
