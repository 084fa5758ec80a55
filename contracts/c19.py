"""C19: the command line processes every word in order with the notations asked for."""
import random, os, tempfile, shutil
from contracts.spec import *
from contracts import parsedrv, cli
ASSUMPTIONS = cli.ASSUMPTIONS
BOUND = ('the built program on some hundred random command lines (options at any position, repeated, duplicated words, empty words, words from standard '
         'input with and without final newline) against blocks computed through the library')
NOT = 'rstpw'
def tasks(P, tier): return cli.tasks(P)
def bounded(B):
    b = B.build(); exe = b.binary(); dic = b.dict(); cli = b.driver('drv_cli')
    if not exe or not cli or not dic:
        B.skipped.append('program: %s' % (b.err or '?')[-600:]); return
    words = [w for w in open(parsedrv.WORDS, encoding='utf8').read().split('\n') if w and len(w) < 14]
    rnd = random.Random(B.seed)
    scratch = tempfile.mkdtemp(prefix='cli')
    try:
        alt = os.path.join(scratch, 'alt.dic'); tsv = os.path.join(scratch, 'alt.tsv')
        open(tsv, 'wb').write('แม่\tm_X_4@3\nกา\tkrAk1@2;P_A_0@2\nสาม\ts_am4@3\n'.encode())
        if build_run(b, [b.gendict(), tsv, alt]) != 0: alt = None
        cases = []
        n = B.scale(160, 2500, 700)
        for k in range(n):
            dct, brk, js, gr, nots = dic, True, False, False, []
            opts = []
            for _ in range(rnd.choice([0, 0, 1, 1, 2, 2, 3, 4, 5, 9, 14])):
                o = rnd.choice('rstpwrstpwjgnjd')
                if o in NOT: nots.append(o); opts.append(('-' + o, o))
                elif o == 'n': brk = False; opts.append(('-n', o))
                elif o == 'j': js = True; opts.append(('-j', o))
                elif o == 'g': js = gr = True; opts.append(('-g', o))
                elif alt:
                    which = rnd.choice([alt, dic, os.path.join(scratch, 'none')])
                    dct = which if which != os.path.join(scratch, 'none') else ''
                    opts.append(('-d' + which, 'd'))
            nw = rnd.choice([0, 1, 1, 2, 3, 6, 12])
            ws = [rnd.choice(words) if rnd.random() < .85 else rnd.choice(['abc', '', 'แม่กา', 'สาม กา', 'ก.', '1+1', 'a-b', 'กา"', 'กา\r', ' กา', 'กา ', 'ก\tา', '=-']) for _ in range(nw)]
            if ws and rnd.random() < .3: ws.append(ws[0])
            # interleave, keeping the order of the words and of the options
            args, a, w = [], list(opts), list(ws)
            while a or w:
                if a and (not w or rnd.random() < .5): args.append(a.pop(0)[0])
                else: args.append(w.pop(0))
            inp = b''
            src = ws
            if rnd.random() < .3 or not nw:
                lines = [rnd.choice(words) if rnd.random() < .85 else rnd.choice(['', 'abc', ' ', '-t', '--help', 'กา กา', 'กา\r', '\r', ' กา', 'กา ', '#กา', '-']) for _ in range(rnd.choice([0, 1, 2, 5, 20]))]
                inp = '\n'.join(lines).encode()
                if lines and (rnd.random() < .6 or lines[-1] == ''): inp += b'\n'
                if not ws: src = lines
            cases.append((args, inp, src, dct, brk, 'g' if gr else 'j' if js else 'l', nots or list('trp')))
        # expected blocks
        need = {}
        for c in cases:
            for w in c[2]:
                for o in c[6]: need.setdefault(c[3], {})[('b' if c[4] else 'n') + c[5] + o, w] = None
        for d, tab in need.items():
            keys = list(tab)
            rc, out, err, _ = B.run([cli, d], inp=b''.join(('%s\t%s\n' % k).encode() for k in keys))
            if rc != 0: B.skipped.append('reference: %s' % err[-300:]); return
            i = 0
            for k in keys:
                j = out.index(b'\n', i); m = int(out[i:j]); tab[k] = out[j + 1:j + 1 + m]; i = j + 1 + m
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda c: B.run([exe] + c[0], inp=c[1], timeout=60), cases))
        for c, (rc, out, err, _) in zip(cases, res):
            want = b''
            for w in c[2]:
                want += w.encode() + b':\n' + b''.join(need[c[3]][('b' if c[4] else 'n') + c[5] + o, w] + b'\n' for o in c[6])
            B.count(1, 1 if len(c[0]) > 1 else 0)
            if rc != 0 or out != want:
                B.fail('thpronun %s with input %r: exit %s, output differs from the expected blocks' % (c[0], c[1].decode(), rc), expected=want.decode()[:1500], got=out.decode('utf8', 'replace')[:1500], stderr=err.decode('utf8', 'replace')[:300])
        for c in cases[:4]: B.sample(repr(c[0]))
        # help and version, whatever their position
        ref = {}
        for o in ('-h', '-V'):
            ref[o] = B.run([exe, o], timeout=30)
            B.count(1, 1)
            t = ref[o][1].decode('utf8', 'replace')
            if o == '-h' and not ('Usage' in t and all('-' + x in t for x in 'Vhdnjgrtpws')): B.fail('help text incomplete: %r' % t)
            if o == '-V' and '0.0.verif' not in t: B.fail('version text lacks the version: %r' % t)
        for o, r in (('-h', '-h'), ('--help', '-h'), ('-V', '-V'), ('--version', '-V')):
            for rest in ([], ['กา'], ['-t'], ['-j', '-g', 'กา', '-r'], ['-n', 'กา', 'แม่'], ['-d/nonexistent', '-w', '-s', '-p'], ['-r', 'กา', '-s', '-t', 'ขา', '-p', '-w', '-n', '-j', '-g', '-r', 'แม่']):
                for p in range(len(rest) + 1):
                    a = rest[:p] + [o] + rest[p:]
                    rc, out, err, _ = B.run([exe] + a, inp='กา\n'.encode(), timeout=30)
                    B.count(1, 1)
                    if out != ref[r][1] or rc != ref[r][0]: B.fail('thpronun %s does not just print the text of %s' % (a, r), got=out.decode('utf8', 'replace')[:800])
    finally: shutil.rmtree(scratch, ignore_errors=True)
def build_run(b, cmd):
    import build
    return build.run(cmd, timeout=60)[0]
