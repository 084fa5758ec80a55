"""Source extraction: dumps clang's typed AST of every translation unit of
/repo (real headers, real STL) and keeps the declarations of the repository
itself.  What is dropped: declarations from namespace std and other system
headers (calls into them are given meaning by engine/models.py)."""
import json, os, re, subprocess, hashlib, pickle, sys, glob
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', '/verif/.cache')
SRC_DIRS = ['thortho', 'sylstring', 'lattice', 'dict', 'output', 'parser', 'thpronun']
SKIP_NS = {'std', '__gnu_cxx', '__cxxabiv1', '__gnu_debug', '__detail', 'abi', '__pstl'}

def sources():
    out = []
    for d in SRC_DIRS:
        for pat in ('*.cxx', '*.cpp', '*.cc', '*.c'):
            out += sorted(glob.glob(os.path.join(REPO, d, pat)))
    return [p for p in out if not os.path.basename(p).startswith('test')]

def flags(path):
    f = ['-fsyntax-only', '-w', '-fno-strict-aliasing', '-I' + REPO,
         '-DEXCEPT_DICT_DIR="/nonexistent"', '-DVERSION="0"']
    if path.endswith('.c'):
        return ['clang', '-std=gnu11'] + f
    return ['clang++', '-std=gnu++14'] + f

def tu_hash(path):
    """hash of every repo header/source; a TU's AST can depend on any."""
    h = hashlib.sha256()
    for d in SRC_DIRS:
        for p in sorted(glob.glob(os.path.join(REPO, d, '*'))):
            if p.endswith(('.h', '.inl', '.hpp', '.hxx')) or p == path:
                h.update(p.encode()); h.update(open(p, 'rb').read())
    h.update(open(__file__, 'rb').read())
    h.update(' '.join(flags(path)).encode())
    return h.hexdigest()[:24]

DROP = {'range', 'loc', 'isUsed', 'isReferenced', 'mangledName_', 'previousDecl'}

def _line(n):
    def g(l):
        if not isinstance(l, dict): return None
        if 'expansionLoc' in l: return l['expansionLoc'].get('line')
        return l.get('line')
    r = n.get('range', {})
    return g(r.get('begin', {})) or g(n.get('loc', {})) or g(r.get('end', {}))

def slim(n, last):
    """drop location noise, keep a best-effort line number"""
    ln = _line(n)
    if ln: last[0] = ln
    o = {k: v for k, v in n.items() if k not in ('range', 'loc', 'inner', 'isUsed', 'isReferenced')}
    o['line'] = last[0]
    if 'inner' in n:
        o['inner'] = [slim(c, last) if c else {'kind': 'Null'} for c in n['inner'] if not (c and (c.get('kind','').endswith('Comment') or c.get('kind','').endswith('Attr')))]
    return o

def tops(stream):
    buf = None
    for line in stream:
        if buf is None:
            if line.startswith('    {'): buf = [line]
        else:
            buf.append(line)
            if line.startswith('    }'):
                yield ''.join(buf); buf = None

def dump(path):
    key = os.path.join(CACHE, os.path.basename(path) + '.' + tu_hash(path) + '.ast')
    if os.path.exists(key):
        try:
            return pickle.load(open(key, 'rb'))
        except Exception:
            pass
    p = subprocess.Popen(flags(path) + ['-Xclang', '-ast-dump=json', path],
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, encoding='utf-8', errors='replace')
    keep = []
    for s in tops(p.stdout):
        head = s[:300]
        k = re.search(r'"kind": "(\w+)"', head).group(1)
        if k in ('LinkageSpecDecl',): 
            if len(s) > 200000: continue
        if k == 'NamespaceDecl':
            m = re.search(r'^      "name": "([^"]*)"', s[:3000], re.M)
            if m and (m.group(1) in SKIP_NS or m.group(1).startswith('__')): continue
        if k in ('EmptyDecl',): continue
        try:
            d = json.loads(s.rstrip().rstrip(','))
        except Exception:
            continue
        keep.append(slim(d, [0]))
    p.stdout.close(); p.wait()
    err = p.stderr.read()
    if p.returncode != 0:
        raise RuntimeError('clang failed on %s: %s' % (path, err[-2000:]))
    os.makedirs(CACHE, exist_ok=True)
    tmp = key + '.%d' % os.getpid()
    pickle.dump(keep, open(tmp, 'wb')); os.replace(tmp, key)
    return keep

def dump_all(paths=None):
    paths = paths or sources()
    with ProcessPoolExecutor(min(8, len(paths))) as ex:
        return dict(zip(paths, ex.map(dump, paths)))

if __name__ == '__main__':
    import time; t = time.time()
    r = dump_all()
    print(time.time() - t, {os.path.basename(k): len(v) for k, v in r.items()})
    import collections
    c = collections.Counter()
    def w(n, ctx):
        c[n.get('kind')] += 1
        for x in n.get('inner', []): w(x, ctx)
    for path, ds in r.items():
        for d in ds:
            if d['kind'] in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'ClassTemplateDecl','CXXRecordDecl','VarDecl'): w(d, path)
    print(c.most_common())
