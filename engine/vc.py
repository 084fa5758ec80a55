"""Runs proof tasks (one per function / lemma) in parallel and collects the
discharged and failed obligations."""
import os, sys, time, traceback, multiprocessing as mp, signal, resource
import z3
import interp, program
from vals import *

class Task:
    def __init__(self, name, run, functions=(), budget=240, timeout=10000, maxpaths=20000, **opts):
        self.name, self.run, self.budget, self.timeout, self.maxpaths = name, run, budget, timeout, maxpaths
        self.functions = list(functions)
        self.opts = opts

def run_one(P, t):
    t0 = time.time()
    I = None
    res = dict(task=t.name, obs=[], error=None)
    try:
        o = dict(t.opts)
        loops = o.pop('loopspecs', {})
        setup = o.pop('setup', None)
        custom = o.pop('custom', None)
        I = interp.Interp(P, timeout=t.timeout, **o)
        I.loopspecs = loops
        I.deadline = t0 + t.budget
        if setup: setup(I)
        if custom: custom(P, I, t)
        else: I.explore(t.run, t.maxpaths)
    except Unsupported as e:
        res['error'] = 'unsupported: %s' % e
        if os.environ.get('VDEBUG'): traceback.print_exc()
    except RecursionError:
        res['error'] = 'unsupported: recursion depth'
    except Exception as e:
        res['error'] = 'internal: %s: %s' % (type(e).__name__, e)
        res['tb'] = traceback.format_exc()
        if os.environ.get('VDEBUG'): traceback.print_exc()
    if I is not None:
        for ob in list(I.obs.values()):
            m = None
            if ob.model is not None:
                try: m = str(ob.model)[:6000]
                except Exception: m = '?'
            res['obs'].append(dict(name=ob.name, status=ob.status, fn=ob.fn, line=ob.line, model=m, time=round(ob.time, 3),
                                   be=ob.be, kind=ob.kind, imprecise=ob.imprecise, count=ob.count))
        res['functions'] = sorted(I.functions | set(t.functions))
        res['external'] = sorted(I.external)
        res['assumed'] = sorted(I.assumed)
        res['stats'] = dict(I.stats, extra=getattr(I, 'extra', {}))
        res['cex'] = getattr(I, 'cex', None)
    res['wall'] = round(time.time() - t0, 2)
    return res

_P = None; _T = None
def _work(i, q):
    sys.setrecursionlimit(20000)
    try: r = run_one(_P, _T[i])
    except BaseException as e:
        r = dict(task=_T[i].name, obs=[], error='internal: %r' % (e,), wall=0)
    q.put((i, r))

def run_tasks(P, tasks, jobs=8, hard=700):
    """each task in its own process with a hard time limit"""
    global _P, _T
    _P, _T = P, tasks
    out = [None] * len(tasks)
    q = mp.Queue()
    pend = list(range(len(tasks))); live = {}
    t0 = time.time()
    while pend or live:
        while pend and len(live) < jobs:
            i = pend.pop(0)
            p = mp.Process(target=_work, args=(i, q)); p.start()
            live[i] = (p, time.time())
        try:
            i, r = q.get(timeout=0.5)
            out[i] = r; p, _ = live.pop(i, (None, 0))
            if p: p.join()
            continue
        except Exception: pass
        for i, (p, st) in list(live.items()):
            lim = min(_T[i].budget * 1.5 + 30, max(5, hard - (st - t0)))
            if time.time() - st > lim or (not p.is_alive() and q.empty()):
                if p.is_alive(): p.kill()
                p.join()
                time.sleep(0.05)
                if q.empty():
                    out[i] = dict(task=_T[i].name, obs=[], error='unsupported: time/memory limit', wall=round(time.time() - st, 1))
                    live.pop(i)
    return out

def summary(results):
    ob = [o for r in results for o in r['obs']]
    return dict(obligations=len(ob), discharged=sum(o['status'] == 'ok' for o in ob),
                failed=[o for o in ob if o['status'] == 'failed'],
                unknown=[o for o in ob if o['status'] == 'unknown'],
                errors=[(r['task'], r['error']) for r in results if r['error']])
