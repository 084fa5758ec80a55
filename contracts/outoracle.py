"""Independent oracle for the line and JSON outputs (records of drv_out)."""
import json
def dec(h): return bytes.fromhex(h[:-1]).decode('utf8', 'strict')
def syls(c):
    out = []
    for x in c.split(' '):
        if x:
            k, h = x.split('=', 1); out.append((k, dec(h)))
    return out
def strs(c): return [syls(x) for x in c.split(';')[:-1]]
def delim(ss, d):
    r = ''; first = True
    for k, t in ss:
        if k == 'B': r += ' '; first = True
        else:
            if not first: r += d
            r += t; first = False
    return r
def roman(ss, cap):
    r = ''; prev = None
    for k, t in ss:
        if k == 'B': r += ' '; prev = None; continue
        if prev is not None and k != 'L':
            i = k.split('/')[0]
            if i == 'A' or (i == 'NGA' and prev == 'NONE'): r += '-'
        r += t
        prev = 'NONE' if k == 'L' else k.split('/')[1]
    if cap and r: r = (r[0].upper() if r[0].isascii() else r[0]) + r[1:]
    return r
def parse(s):
    try: return json.loads(s), None
    except Exception as e: return None, str(e)
def judge(lines, want):
    """yields (record kind, failure or None); want: set of kinds"""
    ended = False
    for l in lines:
        if l == 'END': ended = True
        f = l.split('\t')
        if f[0] not in want or len(f) < 4: continue
        try: yield f[0], judge1(f)
        except Exception as e: yield f[0], 'record %s: %s' % (l[:200], e)
    if not ended: yield 'END', None
def judge1(f):
    k = f[0]
    if k == 'dag':
        flat, e1 = parse(dec(f[2])); grp, e2 = parse(dec(f[3]))
        if e1: return 'flat JSON of a graph does not parse (%s): %s' % (e1, dec(f[2]))
        if e2: return 'grouped JSON of a graph does not parse (%s): %s' % (e2, dec(f[3]))
        if dec(f[3]) != dec(f[5]): return 'grouped JSON of a graph is %s but that of its grouped form is %s' % (dec(f[3]), dec(f[5]))
        if not isinstance(flat, list) or not all(isinstance(s, list) and s and all(isinstance(x, str) for x in s) for s in flat): return 'flat JSON %s is not a list of syllable lists' % flat
        if not shape(grp): return 'grouped JSON %s is not chains of fractions of alternatives' % grp
        return None
    out = dec(f[3])
    if k in ('delim', 'delim1', 'roman', 'roman1'):
        g = (lambda s: delim(s, chr(int(f[1])))) if k.startswith('delim') else (lambda s: roman(s, f[1] == '1'))
        w = ''.join(g(s) + '\n' for s in strs(f[2])) if k in ('delim', 'roman') else g(syls(f[2]))
        if out != w: return '%s output of %s is %r, not %r' % (k, show(f[2]), out, w)
        return None
    v, e = parse(out)
    if e: return 'JSON output does not parse (%s): %s' % (e, out)
    T = lambda ss: [t for _, t in ss]
    if k == 'json1': w = T(syls(f[2]))
    elif k == 'json': w = [T(s) for s in strs(f[2])]
    else: w = [[[T(s) for s in strs(fr)] for fr in ch.split('|')[:-1]] for ch in f[2].split('&')[:-1]]
    if v != w: return '%s output %s decodes to %s, not %s' % (k, out, v, w)
def shape(g):
    return isinstance(g, list) and all(isinstance(c, list) and all(isinstance(fr, list) and fr and all(isinstance(a, list) and a and all(isinstance(x, str) for x in a) for a in fr) for fr in c) for c in g)
def show(c): return '; '.join(' '.join('%s(%s)' % x for x in syls(y)) for y in c.split(';'))
def bounded(B, n, want):
    exe = B.build().driver('drv_out')
    if not exe:
        B.skipped.append('drv_out: ' + (B.build().err or '')[-300:]); return
    rc, out, err, _ = B.run([exe, str(n), str(B.seed)], timeout=240)
    lines = out.decode('utf8', 'replace').split('\n')
    seen = set()
    for k, w in judge(lines, want):
        if k == 'END':
            B.fail('output stopped abnormally (exit %s) after: %s' % (rc, ' / '.join(lines[-3:])[:300])); continue
        B.count()
        if w: B.fail(w)
    seen = {l for l in lines if l.split('\t')[0] in want}
    B.ndistinct += len(seen)
    for l in list(seen)[:3]: B.sample(l[:300])
