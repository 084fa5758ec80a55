#!/usr/bin/env python3-vt
"""check.py PROP [--tier quick|thorough]

Layer A: discharge every obligation of the property's contracts on /repo's
current source.  Layer B: run the real code on bounded inputs against an
independent oracle (counterexample search / replay; stand-in when layer A
meets code outside its fragment)."""
import sys, os, json, time, importlib, threading, traceback, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine')); sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import front, program, vc, build

def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p, encoding='utf8'):
            l = l.rstrip('\n')
            if l.startswith('known: property=%s ' % prop):
                out.append(l[len('known: property=%s ' % prop):])
    return out

class Bounded:
    """collects what the concrete runs did"""
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.fails = []          # (description, dict)
        self.evals = 0
        self.distinct = set()
        self.ndistinct = 0
        self.samples = []
        self.notes = []
        self.skipped = []
        self.suspect = False     # layer A failed: search harder
        self._b = {}
    def build(self, kind='std'):
        if kind not in self._b: self._b[kind] = build.Build(kind)
        return self._b[kind]
    def run(self, cmd, **kw): return build.run(cmd, **kw)
    def scale(self, quick, thorough, suspect=None):
        if self.suspect: return suspect or thorough
        return thorough if self.tier == 'thorough' else quick
    def fail(self, desc, **kw):
        if len(self.fails) < 50: self.fails.append((desc, kw))
    def count(self, n=1, distinct=None):
        self.evals += n
        if distinct is not None: self.ndistinct += distinct
    def sample(self, s):
        if len(self.samples) < 8: self.samples.append(s)
    def drive(self, name, args=(), inp=b'', kind='std', timeout=200, extra=()):
        """run a C++ driver; understands FAIL / STAT / SAMPLE / NOTE lines"""
        b = self.build(kind)
        exe = b.driver(name, extra)
        if not exe:
            self.skipped.append('%s: %s' % (name, (b.err or '?')[-600:])); return None
        cmd = [exe] + [str(a) for a in args]
        rc, out, err, dt = build.run(cmd, inp=inp, timeout=timeout)
        lines = out.decode('utf8', 'replace').split('\n')
        last = ''
        for l in lines:
            if l.startswith('FAIL '): self.fail(l[5:], cmd=' '.join([name] + list(map(str, args))))
            elif l.startswith('STAT '):
                d = dict(x.split('=') for x in l[5:].split())
                self.count(int(d.get('evaluations', 0)), int(d.get('distinct', 0)))
            elif l.startswith('SAMPLE '): self.sample(l[7:])
            elif l.startswith('NOTE '): self.notes.append(l[5:])
            elif l.startswith('INPUT '): last = l[6:]
        if rc is None: self.notes.append('%s stopped at its time limit (last input %s)' % (name, last[:200]))
        elif rc != 0 and not any(l.startswith('FAIL ') for l in lines):
            self.fail('%s: the code under test stopped abnormally (exit %s) on input: %s :: %s' % (
                name, rc, last[:300], err.decode('utf8', 'replace')[-600:].strip().replace('\n', ' | ')))
        return lines

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('contracts.' + prop.lower())
    ev = os.path.join(HERE, 'evidence'); os.makedirs(ev, exist_ok=True)
    rep = os.path.join(ev, 'replay'); os.makedirs(rep, exist_ok=True)
    B = Bounded(prop, tier, seed)
    # build the real code while the proofs run
    def warm():
        try:
            for k in getattr(mod, 'BUILDS', ('std',)): B.build(k).objects()
        except Exception as e: B.notes.append('build: %r' % e)
    th = threading.Thread(target=warm); th.start()
    results = []; perr = None
    nobuild = False
    try:
        P = program.Program(extra=[os.path.join(HERE, 'harness', x) for x in getattr(mod, 'EXTRA_TU', ())])
        tasks = mod.tasks(P, tier)
    except Exception as e:
        perr = '%s: %s' % (type(e).__name__, e)
        if os.environ.get('VDEBUG'): traceback.print_exc()
        tasks = []
    th.join()
    if tasks: results = vc.run_tasks(P, tasks, jobs=8, hard=getattr(mod, 'HARD', 560) if tier == 'quick' else 3000)
    S = vc.summary(results)
    definite = [o for o in S['failed'] if not o['imprecise']]
    undecided = S['unknown'] + [o for o in S['failed'] if o['imprecise']]
    proved = not S['failed'] and not S['unknown'] and not S['errors'] and not perr and S['obligations'] > 0
    ta = time.time() - t0
    if not proved: B.suspect = True
    B.cex = [(r['task'], r['cex']) for r in results if r.get('cex')]
    B.results = results
    try: mod.bounded(B)
    except Exception as e:
        B.skipped.append('bounded run: %s: %s' % (type(e).__name__, e))
        if os.environ.get('VDEBUG'): traceback.print_exc()
    known = known_findings(prop)
    hit = set(); newf = []
    for d, kw in B.fails:
        k = next((x for x in known if x.split(' :: ')[0] in d), None)
        if k: hit.add(k)
        else: newf.append((d, kw))
    for k in sorted(hit): print('KNOWN-FINDING: property=%s %s' % (prop, k))
    viol = []
    def obs_text():
        t = ''
        for o in S['failed'] + S['unknown']:
            t += '\nobligation: %s\n  in: %s line %s\n  kind: %s status: %s back end: %s\n' % (o['name'], o['fn'], o['line'], o['kind'], o['status'], o['be'])
            if o['model']: t += '  counterexample model: %s\n' % o['model'][:3000]
        for tk, e in S['errors']: t += '\ntask %s: %s\n' % (tk, e)
        if perr: t += '\nfront end: %s\n' % perr
        return t
    if newf:
        path = os.path.join(rep, prop + '.txt')
        with open(path, 'w', encoding='utf8') as f:
            f.write('property %s violated; failing input(s) run against the code built from %s\n\n' % (prop, front.REPO))
            for d, kw in newf[:20]: f.write('FAIL %s\n   %s\n' % (d, kw))
            f.write('\nverifier output (obligations not discharged):\n' + (obs_text() or ' none\n'))
        viol.append('VIOLATION property=%s replay=%s' % (prop, path))
    elif definite:
        path = os.path.join(rep, prop + '.txt')
        with open(path, 'w', encoding='utf8') as f:
            f.write('property %s: obligation(s) refuted by the verifier; no failing input found by the bounded search\n' % prop)
            f.write(obs_text())
        viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    assum = sorted({a for r in results for a in r.get('assumed', [])} | set(getattr(mod, 'ASSUMPTIONS', [])))
    ext = sorted({a for r in results for a in r.get('external', [])})
    funs = sorted({a for r in results for a in r.get('functions', [])})
    bes = {}
    for r in results:
        for o in r['obs']:
            if o['status'] == 'ok': bes[o['be']] = bes.get(o['be'], 0) + 1
    level = 'proof' if proved else ('exploration' if not viol else 'proof')
    cov = dict(
        obligations=S['obligations'], discharged=S['discharged'],
        checker_cmd='check.py %s --tier %s' % (prop, tier),
        trusted_base=['clang++ 18 AST', 'engine/*.py VC generator', 'z3 ' + __import__('z3').get_version_string()] + ['model of ' + e for e in ext],
        functions_under_contract=funs, backends=bes,
        solver_seconds=round(sum(r.get('stats', {}).get('qtime', 0) for r in results), 2),
        paths=sum(r.get('stats', {}).get('paths', 0) for r in results),
        obligations_by_task={r['task']: len(r['obs']) for r in results},
        undischarged=[dict(name=o['name'], status=o['status'], fn=o['fn']) for o in S['failed'] + S['unknown']],
        errors=S['errors'] + ([('front end', perr)] if perr else []),
        evaluations=B.evals, distinct_nontrivial=B.ndistinct, rule='bounded runs of the compiled code, not counted as proved: ' + getattr(mod, 'BOUND', ''),
        samples=B.samples, notes=B.notes, skipped=B.skipped)
    if not proved: cov['explanation'] = 'layer A did not discharge every obligation on this tree; the bounded runs stand in (bounded, not proved)'
    with open(os.path.join(ev, prop + '.json'), 'w', encoding='utf8') as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assum,
                       violations=(len(newf) or len(definite)) if viol else 0,
                       wall_s=round(time.time() - t0, 2)), f, indent=1, ensure_ascii=False)
    print('%s: %d/%d obligations discharged, %d tasks, proved=%s, proof %.1fs; bounded runs %d (%d distinct), %d failing; total %.1fs' % (
        prop, S['discharged'], S['obligations'], len(results), proved, ta, B.evals, B.ndistinct, len(B.fails), time.time() - t0))
    for o in S['failed'] + S['unknown']: print('  not discharged: %s [%s]%s' % (o['name'], o['status'], ' (under abstraction)' if o['imprecise'] else ''))
    for tk, e in S['errors']: print('  task %s: %s' % (tk, e))
    if perr: print('  front end: ' + perr)
    for x in B.notes + B.skipped: print('  note: ' + x[:500])
    if os.environ.get('VDEBUG'):
        for d, _ in newf[:10]: print('  FAIL', d[:500])
    for v in viol: print(v)
    sys.exit(1 if viol else 0)

if __name__ == '__main__': main()
