"""Builds /repo's current sources for the replay / bounded runs (outside /repo)."""
import os, subprocess, hashlib, glob, shutil, tempfile, time, concurrent.futures as cf
from front import REPO, SRC_DIRS

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get('VERIF_CACHE', os.path.join(HERE, '.cache'))
BASE = ['-g', '-fno-strict-aliasing', '-w']
KINDS = {'std': ['-O1', '-D_GLIBCXX_ASSERTIONS'],
         'asan': ['-O1', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']}
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99', UBSAN_OPTIONS='print_stacktrace=0')

def _files():
    out = []
    for d in SRC_DIRS:
        for e in ('*.cxx', '*.c', '*.h', '*.inl', '*.hpp', '*.cpp', '*.cc'):
            out += glob.glob(os.path.join(REPO, d, e))
    return sorted(out)

def _hash(extra=''):
    h = hashlib.sha256(extra.encode())
    for f in _files():
        h.update(f.encode()); h.update(open(f, 'rb').read())
    for f in sorted(glob.glob(os.path.join(REPO, 'data', '*.tsv'))): h.update(open(f, 'rb').read())
    return h.hexdigest()[:24]

class Build:
    def __init__(self, kind='std'):
        self.kind = kind
        self.flags = BASE + KINDS[kind]
        self.key = _hash(kind)
        self.dir = os.path.join(CACHE, 'build', self.key)
        self.err = None
        self.log = []
        self.bad = set()
    def sh(self, cmd, **kw):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)
        if r.returncode: self.log.append(' '.join(cmd) + '\n' + r.stdout.decode('utf8', 'replace')[-3000:])
        return r.returncode == 0
    def prune(self):
        d = os.path.join(CACHE, 'build')
        if not os.path.isdir(d): return
        l = sorted(os.listdir(d), key=lambda x: os.path.getmtime(os.path.join(d, x)))
        for x in l[:-6]:
            p = os.path.join(d, x)
            if p != self.dir: shutil.rmtree(p, ignore_errors=True)
    def objects(self):
        """library objects of every .cxx except the program's main"""
        done = os.path.join(self.dir, 'ok')
        lib = os.path.join(self.dir, 'librepo.a')
        if os.path.exists(done): return lib
        self.prune()
        tmp = tempfile.mkdtemp(prefix='b', dir=(os.makedirs(os.path.join(CACHE, 'build'), exist_ok=True) or os.path.join(CACHE, 'build')))
        objs = []; jobs = []
        for f in _files():
            b, e = os.path.splitext(f)
            if e not in ('.cxx', '.cpp', '.cc'): continue
            if os.path.basename(os.path.dirname(f)) == 'thpronun': continue
            o = os.path.join(tmp, os.path.relpath(b, REPO).replace('/', '_') + '.o')
            objs.append(o)
            jobs.append(['g++'] + self.flags + ['-I', REPO, '-c', f, '-o', o])
        with cf.ThreadPoolExecutor(8) as ex:
            ok = all(list(ex.map(self.sh, jobs)))
        if ok: ok = self.sh(['ar', 'rcs', os.path.join(tmp, 'librepo.a')] + objs)
        if not ok:
            shutil.rmtree(tmp, ignore_errors=True); self.err = '\n'.join(self.log)[-4000:]; return None
        open(os.path.join(tmp, 'ok'), 'w').close()
        try: os.rename(tmp, self.dir)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)
        return lib
    def link(self, src, name, extra=()):
        lib = self.objects()
        if not lib: return None
        h = hashlib.sha256(open(src, 'rb').read() + repr(extra).encode())
        for x in sorted(glob.glob(os.path.join(HERE, 'harness', '*.h'))): h.update(open(x, 'rb').read())
        out = os.path.join(self.dir, name + '-' + h.hexdigest()[:12])
        if os.path.exists(out): return out
        if out in self.bad: return None
        tmp = out + '.%d' % os.getpid()
        if not self.sh(['g++'] + self.flags + ['-I', REPO, '-I', os.path.join(HERE, 'harness')] + list(extra) + [src, '-o', tmp, lib, '-lthai', '-ldatrie']):
            self.bad.add(out); self.err = '\n'.join(self.log)[-4000:]; return None
        os.rename(tmp, out)
        return out
    def driver(self, name, extra=()):
        return self.link(os.path.join(HERE, 'harness', name + '.cxx'), name, extra)
    def binary(self):
        """the thpronun program itself"""
        f = [x for x in _files() if os.path.dirname(x).endswith('/thpronun') and x.endswith(('.cxx', '.cpp', '.cc'))]
        if len(f) != 1:
            self.err = 'program sources'; return None
        return self.link(f[0], 'thpronun', ('-DEXCEPT_DICT_DIR="%s"' % self.dir, '-DVERSION="0.0.verif"'))
    def gendict(self):
        if not self.objects(): return None
        out = os.path.join(self.dir, 'gen-lookup-dict')
        if os.path.exists(out): return out
        cs = glob.glob(os.path.join(REPO, 'dict', '*.c'))
        tmp = out + '.%d' % os.getpid()
        fl = [x for x in self.flags if 'GLIBCXX' not in x]
        if not self.sh(['gcc'] + fl + ['-I', REPO] + cs + ['-o', tmp, '-ldatrie']):
            self.err = '\n'.join(self.log)[-4000:]; return None
        os.rename(tmp, out)
        return out
    def dict(self):
        """exception dictionary made from data/*.tsv by the current generator"""
        g = self.gendict()
        if not g: return None
        out = os.path.join(self.dir, 'except.dic')
        if os.path.exists(out): return out
        lines = set()
        for f in glob.glob(os.path.join(REPO, 'data', 'ex-*.tsv')):
            lines |= set(l for l in open(f, 'rb').read().split(b'\n') if l)
        tsv = os.path.join(self.dir, 'except.tsv.%d' % os.getpid())
        open(tsv, 'wb').write(b''.join(l + b'\n' for l in sorted(lines)))
        tmp = out + '.%d' % os.getpid()
        ok = self.sh([g, tsv, tmp])
        os.unlink(tsv)
        if not ok or not os.path.exists(tmp):
            self.err = '\n'.join(self.log)[-4000:]; return None
        os.rename(tmp, out)
        return out

def run(cmd, inp=b'', timeout=300, cwd=None, mem=8 << 30):
    import resource
    t = time.time()
    def lim():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        r = subprocess.run(cmd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=ENV, preexec_fn=lim)
        return r.returncode, r.stdout, r.stderr, time.time() - t
    except subprocess.TimeoutExpired as e:
        return None, e.stdout or b'', e.stderr or b'', time.time() - t
