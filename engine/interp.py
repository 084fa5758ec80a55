"""Symbolic executor / verification-condition generator over clang's AST.

Each control path of a function is executed from the start following a
decision prefix; a two-way feasible branch schedules the other direction.
Loops are cut by invariants (contract-supplied or inferred by Houdini-style
filtering of candidate bounds); calls use the callee's contract when it has
one and are inlined otherwise."""
import os, re, time, z3
from vals import *
from program import strip_type, ctype, params_of, targs

class PathEnd(Exception): pass
class ReturnEx(Exception):
    def __init__(self, v): self.v = v
class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class GotoEx(Exception):
    def __init__(self, l): self.l = l
class ThrowEx(Exception):
    def __init__(self, t): self.t = t

INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'signed char',
        'unsigned char', 'char16_t', 'char32_t', 'wchar_t', 'long long', 'unsigned long long', 'size_t',
        'int32_t', 'uint32_t', 'uint8_t', 'ptrdiff_t', 'std::size_t'}
BITS = {'int': (1, 32), 'unsigned int': (0, 32), 'long': (1, 64), 'unsigned long': (0, 64), 'short': (1, 16),
        'unsigned short': (0, 16), 'char': (1, 8), 'signed char': (1, 8), 'unsigned char': (0, 8),
        'char16_t': (0, 16), 'char32_t': (0, 32), 'wchar_t': (1, 32), 'long long': (1, 64), 'unsigned long long': (0, 64)}
TRANSPARENT = {'ParenExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr',
               'FullExpr', 'CXXRewrittenBinaryOperator'}
FULLEXPR = {}

def has_quant(f, _c={}):
    i = f.get_id()
    r = _c.get(i)
    if r is not None and r[0].eq(f): return r[1]
    seen = set(); st = [f]; q = False
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): q = True; break
        st.extend(x.children())
    _c[i] = (f, q)
    return q

class Ob:
    __slots__ = ('name', 'status', 'fn', 'line', 'model', 'time', 'be', 'kind', 'path', 'imprecise', 'count')
    def __init__(self, name, status, fn, line, model, t, be, kind, path=None):
        self.name, self.status, self.fn, self.line, self.model, self.time, self.be, self.kind = name, status, fn, line, model, t, be, kind
        self.path = path; self.imprecise = False; self.count = 1

class Frame:
    def __init__(self, fn, tu, this):
        self.fn, self.tu, self.this = fn, tu, this
        self.vars = {}      # decl id -> LV
        self.names = {}     # name -> LV (latest)
        self.q = fn.get('_q', '?')
        self.loopno = {}

def lowzeros(a):
    """number of low bits known to be zero"""
    if isinstance(a, int): return 63 if a == 0 else (a & -a).bit_length() - 1
    k = a.decl().kind() if z3.is_app(a) else None
    if z3.is_int_value(a): return lowzeros(a.as_long())
    if k == z3.Z3_OP_MUL: return sum(lowzeros(c) for c in a.children() if z3.is_int_value(c))
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB): return min(lowzeros(c) for c in a.children())
    if k == z3.Z3_OP_ITE: return min(lowzeros(a.arg(1)), lowzeros(a.arg(2)))
    return 0

class Interp:
    def __init__(self, prog, contracts=None, hooks=None, fresh_hooks=None, timeout=10000):
        self.P = prog
        self.contracts = contracts or {}
        self.hooks = hooks or {}
        self.fresh_hooks = fresh_hooks or {}
        self.timeout = timeout
        self.obs = {}            # (name) -> Ob  (worst status)
        self.dis = set()         # disabled houdini candidates
        self.rerun = False
        self.maxpaths = 20000
        self.maxdepth = 40
        self.noinv_unroll = 0
        self.stats = dict(paths=0, queries=0, qtime=0.0)
        self.inline_only = set()
        self.deadline = None
        self.functions = set()   # functions executed (under contract / inlined)
        self.external = set()    # external functions modelled
        self.assumed = set()
        self.merge = True
        import models
        self.models = models

    # ---------------------------------------------------------- path control
    def reset(self, prefix):
        self.prefix = prefix; self.trace = []
        self.store = {}; self.nloc = 0; self.nfresh = 0
        self.facts = []; self.qf = []
        self.sq = z3.Solver(); self.sq.set('timeout', 400)
        self.guards = []
        self.frames = []
        self.globs = {}
        self.ghost = {}
        self.events = []
        self.pcs = []
        self.suppress = False
        self.imprecise = False
        self.notes = []
        self.readonly = set()

    def tick(self):
        if self.deadline and time.time() > self.deadline: raise Unsupported('time budget exhausted')

    def assume(self, f):
        if f is True: return
        if f is False: raise PathEnd()
        if isinstance(f, list):
            for x in f: self.assume(x)
            return
        if self.guards: f = z3.Implies(zb(pand(self.guards)), f)
        self.facts.append(f)
        if self.posts is not None: self.posts.append(f)
        if not has_quant(f): self.sq.add(f)
    posts = None
    spoken = None
    def assume_(self, f):
        """assume what a branch or a proved obligation says"""
        p, self.posts = self.posts, None
        try: self.assume(f)
        finally: self.posts = p

    def fact(self, f):
        """unconditionally valid fact (axiom instance)"""
        if f is True: return
        self.facts.append(f)
        if self.axioms is not None: self.axioms.append(f)
        if not has_quant(f): self.sq.add(f)
    axioms = None
    mmap = False
    fastquick = True
    quickms = 2000
    easy = 0

    def simp(self, c):
        if isinstance(c, bool): return c
        s = z3.simplify(c)
        if z3.is_true(s): return True
        if z3.is_false(s): return False
        return c

    def feasible(self, c):
        t = time.time()
        self.stats['queries'] += 1
        r = self.sq.check(c)
        self.stats['qtime'] += time.time() - t
        return r != z3.unsat

    def entails(self, c):
        """quick quantifier-free entailment test"""
        c = self.simp(c)
        if c is True: return True
        if c is False: return False
        return not self.feasible(pnot(pimp(pand(self.guards), c)))

    def branch(self, c):
        c = self.truth(c)
        c = self.simp(c)
        if isinstance(c, bool): return c
        if self.guards:
            raise Unsupported('branch under guard')
        k = len(self.trace)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            self.tick()
            ft = self.feasible(c)
            ff = self.feasible(z3.Not(c)) if ft else True
            if ft and ff:
                self.work.append(self.prefix[:0] + self.trace + [False])
                d = True
            elif not ft and not self.feasible(z3.Not(c)):
                raise PathEnd()
            else: d = ft
        self.trace.append(d)
        self.pcs.append(c if d else z3.Not(c))
        self.assume_(c if d else z3.Not(c))
        return d

    def choose(self, n):
        """nondeterministic choice among n"""
        for i in range(n - 1):
            b = z3.Bool('choice!%d' % self.newid())
            if self.branch(b): return i
        return n - 1

    def newid(self):
        self.nfresh += 1
        return self.nfresh

    def replaying(self): return self.suppress or len(self.trace) < len(self.prefix)

    # ---------------------------------------------------------- merged calls
    def mergeable(self, node, tu):
        r = node.get('_mergeable')
        if r is None:
            r = node['_mergeable'] = self.mergeable0(node, tu)
        return r
    def mergeable0(self, node, tu):
        t = (node.get('type') or {}).get('qualType', '')
        rt = strip_type(t.split('(')[0])
        if not (rt == 'bool' or rt in INTS or rt in self.P.enums) or self.returns_ref(node): return False
        for p in node.get('inner', []):
            if p['kind'] == 'ParmVarDecl':
                pt = ctype(p)
                if (pt.endswith('&') or pt.endswith('*')) and not pt.startswith('const'): return False
        node['_mergeable'] = False
        def ok(x):
            k = x['kind']
            if k in ('WhileStmt', 'ForStmt', 'DoStmt', 'CXXForRangeStmt', 'LambdaExpr', 'CXXNewExpr', 'CXXTryStmt', 'GotoStmt'): return False
            return all(ok(y) for y in x.get('inner', []))
        if not ok(node['_body']): return False
        if node['kind'] == 'CXXMethodDecl' and not re.search(r'\)\s*const', t): return False
        return True

    def merge_call(self, node, tu, this, args):
        sv = (self.trace, self.prefix, self.work, self.facts, self.pcs, self.suppress, self.axioms, self.posts)
        store0, nloc0, globs0 = dict(self.store), self.nloc, dict(self.globs)
        sup = self.replaying()
        res = []; ax = []; posts = []
        self.work = [[]]
        g0 = self.guards
        if g0:
            self.sq.push(); self.sq.add(zb(pand(g0)))
        base = list(sv[3]) + ([zb(pand(g0))] if g0 else [])
        n = 0
        try:
            while self.work:
                pf = self.work.pop(); n += 1
                if n > 400: raise Unsupported('merge explosion')
                self.trace, self.prefix = [], pf
                self.facts = list(base) + ax; self.pcs = []; self.suppress = sup; self.axioms = []; self.posts = []
                self.guards = []
                self.store = dict(store0); self.nloc = nloc0; self.globs = dict(globs0)
                self.sq.push()
                try:
                    r = self.call(node, tu, this, args, nomerge=True)
                    res.append((pand(self.pcs), r))
                    posts += [pimp(pand(self.pcs), f) for f in self.posts]
                except PathEnd: pass
                finally:
                    self.sq.pop()
                    ax += self.axioms
        finally:
            if g0: self.sq.pop()
            self.guards = g0
            self.trace, self.prefix, self.work, self.facts, self.pcs, self.suppress, self.axioms, self.posts = sv
            self.store = store0; self.nloc = nloc0; self.globs = globs0
        for a in ax: self.fact(a)
        for f in posts: self.assume(f)
        if not res: raise PathEnd()
        out = res[-1][1]
        for c, v in reversed(res[:-1]): out = ite(c, v, out)
        if isz(out) and len(res) > 1:
            out = z3.simplify(out) if len(res) < 30 else out
            if z3.is_int_value(out): return out.as_long()
            if z3.is_true(out): return True
            if z3.is_false(out): return False
        return out

    # ---------------------------------------------------------- obligations
    muted = False           # while looking at expressions the program does not evaluate
    def where(self):
        return (self.frames[-1].q if self.frames else '?')

    def ob(self, name, f, kind='assert', line=None):
        if self.muted: return True
        f = self.simp(f) if not isinstance(f, bool) else f
        if self.guards and f is not True: f = pimp(pand(self.guards), f)
        old = self.suppress or len(self.trace) < len(self.prefix)
        if f is True:
            if not old: self.record(name, 'ok', line, None, 0, 'simplify', kind)
            return True
        if old:
            self.assume_(f); return True
        ok = self.prove(name, f, kind, line)
        g, self.guards = self.guards, []
        if f is not False: self.assume_(f)
        self.guards = g
        if f is False: raise PathEnd()
        return ok

    def record(self, name, status, line, model, t, be, kind):
        o = self.obs.get(name)
        rank = {'ok': 0, 'unknown': 1, 'failed': 2}
        if o is None or rank[status] > rank[o.status] or status == o.status == 'failed' and o.imprecise and not self.imprecise:
            p = self.obs[name] = Ob(name, status, self.where(), line, model, t + (o.time if o else 0), be, kind, list(self.trace))
            p.imprecise = self.imprecise
            p.count = o.count + 1 if o else 1
        else:
            o.time += t; o.count += 1

    def prove(self, name, f, kind, line=None, timeout=None):
        st, m, t, be = self.check(f, timeout)
        if st != 'ok' and kind == 'houdini': return False
        self.record(name, st, line, m, t, be, kind)
        return st == 'ok'

    def check(self, f, timeout=None, fast=False):
        """-> (ok|failed|unknown, model, time, backend)"""
        self.tick()
        t0 = time.time()
        nf = z3.Not(zb(f)) if isz(f) else z3.BoolVal(not f)
        self.stats['queries'] += 1
        res = None; model = None
        if self.easy < 6 and not has_quant(nf):
            if not self.feasible(nf): return 'ok', None, time.time() - t0, 'z3-qf'
            if time.time() - t0 > 0.3: self.easy += 1          # not worth trying here
        # quantifier-free first
        quant = has_quant(nf) or any(has_quant(x) for x in self.facts)
        s = z3.Solver(); s.set('timeout', (timeout or self.timeout) if not quant else min(1500, timeout or 1500))
        for x in self.facts:
            if not has_quant(x): s.add(x)
        s.add(nf)
        r = s.check()
        be = 'z3-qf'
        if r == z3.sat and not quant: model = s.model()
        if r != z3.unsat and quant:
            s = z3.Solver(); s.set('timeout', timeout or self.timeout); s.set('mbqi', False); s.set('random_seed', 7)
            for x in self.facts: s.add(x)
            s.add(nf)
            r = s.check(); be = 'z3-ematch'
            if r == z3.unsat or fast: pass
            else:
                s = z3.Solver(); s.set('timeout', timeout or self.timeout)
                for x in self.facts: s.add(x)
                s.add(nf)
                r = s.check(); be = 'z3'
                if r == z3.sat: model = s.model()
        dt = time.time() - t0
        self.stats['qtime'] += dt
        if r == z3.unsat: return 'ok', None, dt, be
        if r == z3.sat: return 'failed', model, dt, be
        if not fast:
            # concrete inputs that may refute what the solver leaves open
            for h in self.ghost.get('refute', []):
                s = z3.Solver(); s.set('timeout', 3000)
                for x in self.facts: s.add(x)
                s.add(nf); s.add(h)
                if s.check() == z3.sat: return 'failed', s.model(), time.time() - t0, 'z3'
        return 'unknown', None, dt, be

    # ---------------------------------------------------------- store
    def alloc(self, v):
        self.nloc += 1
        self.store[self.nloc] = v
        return LV(self.nloc)

    def comp(self, v, p):
        if p[0] == 'f':
            if isinstance(v, StructV): return v.get(p[1])
            if isinstance(v, OpaqueV) and p[1] in v.d: return v.d[p[1]]
            raise Unsupported('field %s of %r' % (p[1], type(v).__name__))
        if isinstance(v, SeqV): return v.at(p[1])
        if isinstance(v, MapV): return v.at(p[1])
        if hasattr(v, 'elem_'): return v.elem_(self, p[1])
        if isinstance(v, str) or (isz(v) and z3.is_string(v)): return self.models.str_at(self, v, p[1])
        raise Unsupported('element of %s' % type(v).__name__)

    def read(self, lv):
        v = self.store[lv.loc]
        for p in lv.path:
            if isinstance(v, RefV): v = self.read(v.lv)
            v = self.comp(v, p)
        if isinstance(v, RefV): v = self.read(v.lv)
        return v

    def write(self, lv, val):
        if lv.loc in self.readonly: raise Unsupported('write through an iterator')
        # resolve reference members
        v = self.store[lv.loc]
        for k, p in enumerate(lv.path):
            if isinstance(v, RefV):
                return self.write(LV(v.lv.loc, v.lv.path + lv.path[k:]), val)
            v = self.comp(v, p) if not (k == len(lv.path) - 1) else None
        def up(v, path):
            if not path: return val
            p = path[0]
            if isinstance(v, RefV): raise Unsupported('write through nested ref')
            if p[0] == 'f':
                if isinstance(v, StructV): return v.set(p[1], up(v.f.get(p[1]) if len(path) == 1 else v.get(p[1]), path[1:]))
                if isinstance(v, OpaqueV):
                    d = dict(v.d); d[p[1]] = up(d.get(p[1]), path[1:]); return OpaqueV(v.t, d)
                raise Unsupported('write field of %s' % type(v).__name__)
            if isinstance(v, SeqV): return v.setat(p[1], up(None if len(path) == 1 else v.at(p[1]), path[1:]))
            raise Unsupported('write element of %s' % type(v).__name__)
        nv = up(self.store[lv.loc], lv.path)
        if self.guards:
            raise Unsupported('side effect under guard')
        self.store[lv.loc] = nv

    def iters_of(self, clv, fn):
        """apply fn to every live iterator into container clv"""
        def upd(v):
            if isinstance(v, IterV) and v.c.same(clv): return fn(v)
            if isinstance(v, StructV):
                ch = {}
                for k, x in v.f.items():
                    if isinstance(x, (IterV, StructV)):
                        y = upd(x)
                        if y is not x: ch[k] = y
                if ch:
                    d = dict(v.f); d.update(ch); return StructV(v.t, d)
            return v
        for k in list(self.store):
            v = self.store[k]
            if isinstance(v, (IterV, StructV)):
                n = upd(v)
                if n is not v: self.store[k] = n

    def deref_lv(self, v):
        """LV -> value"""
        return self.read(v) if isinstance(v, LV) else v

    # ---------------------------------------------------------- fresh values
    def leaf(self, name, sort, idx):
        if idx:
            return z3.Function(name, *([z3.IntSort()] * len(idx) + [sort]))(*[z3.IntVal(i) if isinstance(i, int) else i for i in idx])
        return z3.Const(name, sort)

    def fresh(self, t, name, idx=()):
        t = strip_type(t)
        h = self.fresh_hooks.get(t)
        if h: return h(self, name, idx)
        if t == 'bool' or t == '_Bool': return self.leaf(name, z3.BoolSort(), idx)
        if t in INTS or t in self.P.enums:
            v = self.leaf(name, z3.IntSort(), idx)
            if t in BITS:
                s, b = BITS[t]
                if s: self.fact(z3.And(v >= -(1 << (b - 1)), v < (1 << (b - 1))))
                else: self.fact(z3.And(v >= 0, v < (1 << b)))
            return v
        if self.models.is_string(t):
            return self.leaf(name, z3.StringSort(), idx)
        k = self.models.seq_kind(t)
        if k and k[0] == 'multimap' and self.mmap:
            if idx: raise Unsupported('family of multimaps')
            import multimap as mmap
            return mmap.MMV(self, name, k[1])
        if k:
            kind, et = k
            n = self.leaf(name + '.n', z3.IntSort(), idx)
            self.fact(n >= 0)
            if kind != 'list': self.fact(n < (1 << 40))
            key = None
            if kind == 'u16':
                key = (self.leaf(name + '.id', z3.IntSort(), idx), 0)
                self.fact(key[0] >= 0)
                if not idx: self.charfact(name)
            def at(j, et=et, name=name, idx=idx):
                return self.fresh(et, name + '[]', idx + (j,))
            return SeqV(et, n, at, None, key, kind)
        if t.startswith('std::pair<') or t.startswith('pair<'):
            a = targs(t)
            return StructV('pair', {'first': self.fresh(a[0], name + '.first', idx), 'second': self.fresh(a[1], name + '.second', idx)})
        r = self.P.records.get(t)
        if r:
            return StructV(t, {n: self.fresh(ft, name + '.' + n, idx) for n, ft in self.allfields(r)})
        raise Unsupported('fresh value of type %s' % t)

    def charfact(self, name):
        f = z3.Function(name + '[]', z3.IntSort(), z3.IntSort())
        q = z3.Int('q!c')
        self.fact(z3.ForAll([q], z3.And(f(q) >= 0, f(q) < 65536), patterns=[f(q)]))

    def allfields(self, r):
        out = []
        for b in r.bases:
            br = self.P.records.get(b)
            if br: out += self.allfields(br)
        for f in r.fields:
            if 'name' in f: out.append((f['name'], ctype(f)))
        return out

    def default(self, t, name=None):
        """default-initialised (uninitialised for scalars) value"""
        t = strip_type(t)
        name = name or 'uninit!%d' % self.newid()
        m = self.models.default_value(self, t)
        if m is not None: return m
        if t.endswith('*'): return PtrV(None, z3.Bool('uninitp!%d' % self.newid()))
        r = self.P.records.get(t)
        if r and not self.abstracted(t):
            return StructV(t, {n: self.default(ft) for n, ft in self.allfields(r)})
        return self.fresh(t, name)

    # ---------------------------------------------------------- calls
    def call(self, node, tu, this, args, inline=False, nomerge=False):
        """args: list of LV / values matching parameters (LV for references)"""
        q = node.get('_q', node.get('name'))
        h = self.hooks.get(q)
        if h:
            r = h(self, this, args, node)
            if r is not NotImplemented: return r
        c = self.contracts.get(q)
        if c is not None and not inline:
            if not c.applies(node): c = None
        if c is not None and not inline:
            r = c.apply(self, node, tu, this, args)
            if r is not NotImplemented: return r
        if self.merge and not nomerge and not inline and self.mergeable(node, tu):
            return self.merge_call(node, tu, this, args)
        if len(self.frames) > self.maxdepth: raise Unsupported('inlining depth at ' + q)
        if not inline and any(f.fn is node for f in self.frames) and sum(f.fn is node for f in self.frames) > 8:
            raise Unsupported('recursive call to %s needs a contract' % q)
        self.functions.add(q)
        self.tick()
        fr = Frame(node, tu, this)
        ps = [c for c in node.get('inner', []) if c['kind'] == 'ParmVarDecl']
        for p, a in zip(ps, args):
            self.bind(fr, p, a)
        self.frames.append(fr)
        gd = len(self.guards)
        try:
            for c in node.get('inner', []):
                if c['kind'] == 'CXXCtorInitializer': self.ctor_init(fr, c)
            try:
                self.exec(node['_body'])
                r = None
            except ReturnEx as e:
                r = e.v
        finally:
            self.frames.pop()
            del self.guards[gd:]
        return r

    def bind(self, fr, p, a):
        t = ctype(p)
        if t.endswith('&'):
            if not isinstance(a, LV): a = self.alloc(a)
            lv = a
        else:
            if isinstance(a, LV): a = self.read(a)
            lv = self.alloc(self.coerce(a, strip_type(t)))
        fr.vars[p['id']] = lv
        if 'name' in p: fr.names[p['name']] = lv

    def coerce(self, v, t):
        if t == 'bool' and not isinstance(v, bool) and not (isz(v) and z3.is_bool(v)): 
            return self.truth(v) if isinstance(v, (int, TabVal)) or isz(v) else v
        if t in INTS and (isinstance(v, bool) or isinstance(v, TabVal) or (isz(v) and z3.is_bool(v))): return toint(v)
        return v

    def ctor_init(self, fr, c):
        if 'baseInit' in c:
            e = c['inner'][0]
            while e['kind'] in TRANSPARENT: e = e['inner'][0]
            if e['kind'] in ('CXXConstructExpr', 'CXXInheritedCtorInitExpr'):
                bt = strip_type(ctype(e))
                self.construct_into(fr.this, bt, e)
            return
        a = c.get('anyInit') or {}
        nm = a.get('name')
        if not c.get('inner'): return
        e = c['inner'][0]
        if e['kind'] == 'CXXDefaultInitExpr':
            self.default_member_init(fr, nm, a); return
        ft = ctype(a)
        if ft.endswith('&'):
            v = self.ev(e)
            if not isinstance(v, LV): v = self.alloc(v)
            self.write(fr.this.f(nm), RefV(v))
        else:
            self.write(fr.this.f(nm), self.coerce(self.rv(e), strip_type(ft)))

    def default_member_init(self, fr, nm, a):
        for r in self.P.records.values():
            for f in r.fields:
                if f.get('name') == nm and f.get('id') == a.get('id') and f.get('inner'):
                    self.write(fr.this.f(nm), self.rv(f['inner'][-1])); return
        raise Unsupported('default member initialiser of ' + str(nm))

    def find_ctor(self, rec, e):
        want = re.sub(r'\s*noexcept(\(.*\))?\s*$', '', e['ctorType']['qualType'])
        cands = [c for c, tu in rec.ctors]
        for c, tu in rec.ctors:
            if re.sub(r'\s*noexcept(\(.*\))?\s*$', '', c['type']['qualType']) == want: return c, tu
        n = len(params_of(want)[0])
        l = [(c, tu) for c, tu in rec.ctors if sum(x['kind'] == 'ParmVarDecl' for x in c.get('inner', [])) == n]
        if len(l) == 1: return l[0]
        return None

    def abstracted(self, t):
        """objects of type t are replaced by an abstraction (a hook marked
        real only adds facts about unknown objects)"""
        h = self.fresh_hooks.get(t)
        return h is not None and not getattr(h, 'real', False)

    def construct_into(self, lv, t, e, argnodes=None):
        """run constructor of record t on existing object lv"""
        args = e.get('inner', []) if argnodes is None else argnodes
        rec = self.P.records.get(t)
        if rec is None or self.abstracted(t):
            v = self.models.construct(self, t, e, args)
            if lv.path == () or not isinstance(self.read(lv), StructV): self.write(lv, v)
            else:
                # opaque base embedded in a struct
                s = self.read(lv)
                if isinstance(v, StructV):
                    for k, x in v.f.items(): s = s.set(k, x)
                    self.write(lv, s)
                else: self.write(lv, v)
            return
        cd = self.find_ctor(rec, e)
        d = self.P.definition(*reversed(cd)) if cd else None
        if d is None:
            # implicit constructor
            if not args:
                s = self.read(lv)
                if not isinstance(s, StructV): return
                for n, ft in self.allfields(rec):
                    m = self.models.default_value(self, strip_type(ft))
                    if m is not None: self.write(lv.f(n), m)
                    elif strip_type(ft) in self.P.records:
                        self.default_construct(lv.f(n), strip_type(ft))
                return
            if len(args) == 1:
                o = self.rv(args[0])
                if isinstance(o, StructV):
                    s = self.read(lv)
                    for n, ft in self.allfields(rec): s = s.set(n, o.get(n))
                    self.write(lv, s); return
                self.write(lv, o); return
            raise Unsupported('constructor of %s: %s' % (t, e.get('ctorType')))
        node, tu = d
        decl = cd[0]
        vals = self.evargs(args, node, decl)
        self.call(node, tu, lv, vals)

    def default_construct(self, lv, t):
        rec = self.P.records[t]
        for c, tu in rec.ctors:
            ps = [x for x in c.get('inner', []) if x['kind'] == 'ParmVarDecl']
            if all(any(y['kind'].endswith('Expr') or y['kind'].endswith('Literal') for y in p.get('inner', [])) for p in ps):
                d = self.P.definition(tu, c)
                if d:
                    self.call(d[0], d[1], lv, [self.rv(p['inner'][-1]) for p in ps]); return

    def construct(self, t, e, argnodes=None):
        rec = self.P.records.get(t)
        args = e.get('inner', []) if argnodes is None else argnodes
        h = self.fresh_hooks.get(t)
        if rec is None or self.abstracted(t):
            return self.models.construct(self, t, e, args)
        # copy elision
        if e.get('elidable') and len(args) == 1:
            return self.rv(args[0])
        lv = self.alloc(self.default(t))
        self.construct_into(lv, t, e, args)
        v = self.store.pop(lv.loc)
        return v

    def evargs(self, nodes, fn=None, decl=None):
        out = []
        ps = [c for c in fn.get('inner', []) if c['kind'] == 'ParmVarDecl'] if fn else []
        dps = [c for c in decl.get('inner', []) if c['kind'] == 'ParmVarDecl'] if decl else ps
        for i, n in enumerate(nodes):
            if n['kind'] == 'CXXDefaultArgExpr':
                p = None
                for q in (dps, ps):
                    if i < len(q) and q[i].get('inner'): p = q[i]; break
                if p is None:
                    p = self.find_default(fn, i)
                if p is None:
                    raise Unsupported('default argument')
                out.append(self.ev(p['inner'][-1]))
            else:
                out.append(self.ev(n))
        # by-value parameters: read now
        for i, p in enumerate(ps[:len(out)]):
            if not ctype(p).endswith('&') and isinstance(out[i], LV): out[i] = self.read(out[i])
        return out

    def find_default(self, fn, i):
        m = fn.get('mangledName') if fn else None
        for tu in self.P.tus:
            for d in tu.ids.values():
                if d.get('mangledName') == m and m:
                    ps = [c for c in d.get('inner', []) if c['kind'] == 'ParmVarDecl']
                    if i < len(ps) and ps[i].get('inner'): return ps[i]

    # ---------------------------------------------------------- expressions
    def rv(self, n):
        v = self.ev(n)
        if isinstance(v, LV): v = self.read(v)
        return v

    def truth(self, v):
        if isinstance(v, LV): v = self.read(v)
        if isinstance(v, bool): return v
        if isinstance(v, int): return v != 0
        if isinstance(v, TabVal): return v.truth()
        if isinstance(v, PtrV): return pnot(v.nul)
        if isinstance(v, CStrV): return True
        if isinstance(v, IterV): return pnot(v.nul)
        if hasattr(v, 'nul'): return pnot(v.nul)
        if isinstance(v, OpaqueV): return self.models.opaque_truth(self, v)
        if isz(v):
            if z3.is_bool(v): return v
            return v != 0
        if isinstance(v, FuncV): return True
        raise Unsupported('truth of %s' % type(v).__name__)

    def ev(self, n):
        k = n['kind']
        while k in TRANSPARENT:
            n = n['inner'][0]; k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Unsupported('expression kind %s (line %s)' % (k, n.get('line')))
        return m(n)

    def e_IntegerLiteral(self, n): return int(n['value'])
    def e_FloatingLiteral(self, n): raise Unsupported('floating point')
    def e_CharacterLiteral(self, n): return n['value']
    def e_CXXBoolLiteralExpr(self, n): return n['value'] is True or n['value'] == 'true'
    def e_CXXNullPtrLiteralExpr(self, n): return PtrV(None)
    def e_GNUNullExpr(self, n): return PtrV(None)
    def e_StringLiteral(self, n):
        return self.models.string_literal(n)
    def e_PredefinedExpr(self, n): return CStrV('?')
    def e_SourceLocExpr(self, n): return 0
    def e_ImplicitValueInitExpr(self, n): return self.zero(ctype(n))
    def e_CXXScalarValueInitExpr(self, n): return self.zero(ctype(n))
    def zero(self, t):
        t = strip_type(t)
        if t == 'bool': return False
        if t in INTS or t in self.P.enums: return 0
        if t.endswith('*'): return PtrV(None)
        m = self.models.default_value(self, t)
        if m is not None: return m
        r = self.P.records.get(t)
        if r: return StructV(t, {nm: self.zero(ft) for nm, ft in self.allfields(r)})
        raise Unsupported('zero of ' + t)

    def e_CXXThisExpr(self, n): return PtrV(self.frames[-1].this)

    def e_DeclRefExpr(self, n):
        d = n['referencedDecl']; k = d['kind']
        fr = self.frames[-1] if self.frames else None
        if k == 'EnumConstantDecl':
            tu = fr.tu
            v = self.P.enumval.get((tu.path, d['id']))
            if v is None:
                # std enum
                v = self.models.std_enum(d.get('name'))
                if v is None: raise Unsupported('enum constant ' + d.get('name'))
            return v
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            return FuncV(d, fr.tu)
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            for f in (fr,):
                if d['id'] in f.vars: return f.vars[d['id']]
            cap = getattr(fr, 'outer', None)
            while cap is not None:
                if d['id'] in cap.vars: return cap.vars[d['id']]
                cap = getattr(cap, 'outer', None)
            return self.global_var(d, fr.tu)
        raise Unsupported('reference to ' + k)

    def global_var(self, d, tu):
        dn = tu.ids.get(d['id'])
        m = (dn or d).get('mangledName') or d.get('name')
        nm = d.get('name')
        if m in self.globs: return self.globs[m]
        g = self.models.global_model(self, nm)
        if g is not None:
            lv = self.alloc(g); self.globs[m] = lv; return lv
        e = self.P.globals.get(m)
        if dn is not None and dn.get('init'): e = (dn, tu)
        if e is None or not e[0].get('inner'):
            if dn is not None and strip_type(ctype(dn)) in self.P.records and dn.get('init'):
                pass
            else:
                raise Unsupported('global %s has no known initialiser' % nm)
        node, gtu = e
        ini = [c for c in node['inner'] if c['kind'].endswith('Expr') or c['kind'].endswith('Literal') or c['kind'].endswith('Cleanups') or c['kind'].endswith('Operator')]
        fr = Frame({'_q': 'init:' + nm}, gtu, None)
        self.frames.append(fr)
        g0, self.guards = self.guards, []
        try: v = self.rv(ini[-1])
        finally:
            self.frames.pop(); self.guards = g0
        lv = self.alloc(v)
        self.globs[m] = lv
        if 'const' not in node['type']['qualType']:
            self.ghost.setdefault('mutable_globals', set()).add(nm)
        return lv

    def e_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        s = n['inner'][0]
        if ck == 'LValueToRValue':
            v = self.ev(s)
            if not isinstance(v, LV): return v
            x = self.read(v)
            if v.path and v.path[-1][0] == 'e' and isz(x) or isinstance(x, int):
                # an element seen through a pointer of another integer type
                c = self.read(LV(v.loc, v.path[:-1])) if v.path and v.path[-1][0] == 'e' else None
                t = strip_type(ctype(s))
                if isinstance(c, SeqV) and c.kind == 'array' and c.et != t and c.et in BITS and t in BITS:
                    if BITS[c.et][1] != BITS[t][1]: raise Unsupported('array of %s read as %s' % (c.et, t))
                    if BITS[c.et] != BITS[t]: return self.intcast(x, c.et, t)
            return x
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'FunctionToPointerDecay', 'ConstructorConversion',
                  'UserDefinedConversion', 'BitCast', 'BaseToDerived', 'BuiltinFnToFnPtr', 'LValueBitCast', 'Dependent'):
            v = self.ev(s)
            if isinstance(v, RawV) or (isinstance(v, LV) and isinstance(self.read(v), RawV)): return self.models.typed(self, v if isinstance(v, RawV) else self.read(v), ctype(n))
            return v
        if ck == 'ArrayToPointerDecay':
            v = self.ev(s)
            if isinstance(v, LV):
                x = self.read(v)
                if isinstance(x, CStrV): return x
                return IterV(v, 0)
            return v
        if ck in ('IntegralCast', 'PointerToIntegral', 'IntegralToPointer'):
            return self.intcast(self.rv(s), strip_type(ctype(s)), strip_type(ctype(n)))
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            return self.truth(self.rv(s))
        if ck == 'NullToPointer': return PtrV(None)
        if ck == 'ToVoid':
            self.ev(s); return None
        raise Unsupported('cast ' + str(ck))
    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXConstCastExpr = e_CXXReinterpretCastExpr = e_ImplicitCastExpr
    def e_CXXFunctionalCastExpr(self, n): return self.e_ImplicitCastExpr(n)

    def intcast(self, v, ft, tt):
        if isinstance(v, TabVal) and tt != 'bool': return v
        v = toint(v) if tt != 'bool' else v
        if tt == 'bool': return self.truth(v)
        if tt in self.P.enums or tt not in BITS: return v
        s, b = BITS[tt]
        if isinstance(v, int):
            v &= (1 << b) - 1
            if s and v >> (b - 1): v -= 1 << b
            return v
        if ft in BITS:
            fs, fb = BITS[ft]
            if fs == s and fb <= b: return v
            if not fs and fb < b: return v
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
        if isz(v) and z3.is_int(v):
            if ft in BITS and BITS[ft][0] and not s and BITS[ft][1] <= b:
                if self.entails(v >= 0): return v
                if b < 32 and self.entails(v < 0): return z3.simplify(v + (1 << b))
                return z3.If(v >= 0, v, v + (1 << b))
            if self.entails(z3.And(v >= lo, v <= hi)): return v
            if s and b == 32 and ft in BITS and BITS[ft] == (BITS['unsigned int'][0], 32) and self.entails(z3.And(v >= 0, v < (1 << b))):
                return z3.If(v > hi, v - (1 << b), v)
            if b >= 32:
                # lengths/positions beyond 2^31 are excluded by assumption
                self.notes.append('int-range'); self.assumed.add('assume: integer conversion %s->%s in range' % (ft, tt))
                return v
            if s and self.entails(z3.And(v > hi, v <= hi + (1 << b))): return z3.simplify(v - (1 << b))
            m = v % (1 << b)
            return z3.If(m >= (1 << (b - 1)), m - (1 << b), m) if s else m
        return v

    def e_MaterializeTemporaryExpr(self, n):
        v = self.ev(n['inner'][0])
        if isinstance(v, LV): return v
        return self.alloc(v)

    def e_MemberExpr(self, n):
        b = self.ev(n['inner'][0])
        if isinstance(b, LV) and n.get('isArrow'): b = self.read(b)
        nm = n.get('name')
        if n.get('type', {}).get('qualType') == '<bound member function type>':
            raise Unsupported('bound member value')
        if n.get('isArrow'):
            if isinstance(b, PtrV):
                self.ob('null-deref:%s:%s' % (self.where(), nm), pnot(b.nul), 'safety', n.get('line'))
                if b.lv is None: raise PathEnd()
                b = b.lv
                if isinstance(self.store.get(b.loc) if isinstance(self.store, dict) else None, FreedV):
                    self.ob('use-after-free:%s:%s' % (self.where(), nm), False, 'safety', n.get('line')); raise PathEnd()
            elif isinstance(b, IterV):
                b = self.iter_lv(b, n)
            elif isinstance(b, MapIterV):
                return self.alloc(self.mapiter_field(b, nm, n))
            elif isinstance(b, StructV): pass
            else: raise Unsupported('-> on %s' % type(b).__name__)
        if isinstance(b, LV):
            d = n.get('referencedMemberDecl')
            try:
                x = self.read(b)
                if isinstance(x, StructV):
                    f = x.f.get(nm)
                    if f is None and nm not in x.f:
                        r = self.static_member(n)
                        if r is not None: return r
                    if isinstance(f, RefV): return f.lv
            except IndexError: pass
            return b.f(nm)
        if isinstance(b, StructV):
            f = b.get(nm)
            return f.lv if isinstance(f, RefV) else f
        raise Unsupported('member %s of %s' % (nm, type(b).__name__))

    def static_member(self, n):
        d = self.frames[-1].tu.ids.get(n.get('referencedMemberDecl'))
        if d is not None and d['kind'] == 'VarDecl': return self.global_var(d, self.frames[-1].tu)

    def mapiter_field(self, b, nm, n):
        self.ob('end-deref:%s' % self.where(), pnot(b.isend), 'safety', n.get('line'))
        if nm == 'first': return b.key
        v = b.m.at(b.key)
        if v is None: raise PathEnd()
        return v

    def iter_lv(self, it, n=None):
        if it.nul is not False: self.ob('null-deref:%s' % self.where(), pnot(it.nul), 'safety', n.get('line') if n else None)
        c = self.read(it.c)
        if isinstance(c, FreedV):
            self.ob('use-after-free:%s' % self.where(), False, 'safety', n.get('line') if n else None); raise PathEnd()
        if hasattr(c, 'iter_lv_'): return c.iter_lv_(self, it, n)
        if isinstance(c, SeqV):
            self.ob('iter-deref:%s' % self.where(), pand([le(0, it.i), lt(it.i, c.n)]), 'safety', n.get('line') if n else None)
            if c.conc is not None and not c.conc: raise PathEnd()
            return it.c.e(it.i)
        if isinstance(c, (MapV, SetV)):
            return self.alloc(StructV('pair', {'first': c.items[it.i][0], 'second': c.items[it.i][1]}) if isinstance(c, MapV) else c.items[it.i])
        if isinstance(c, (str, CStrV)) or (isz(c) and z3.is_string(c)):
            return self.alloc(self.models.str_at(self, c.s if isinstance(c, CStrV) else c, it.i))
        raise Unsupported('iterator into %s' % type(c).__name__)

    def e_ArraySubscriptExpr(self, n):
        a = self.rv(n['inner'][0]); i = self.rv(n['inner'][1])
        return self.subscript(a, i, n)

    def subscript(self, a, i, n):
        if isinstance(a, IterV):
            if a.nul is not False: self.ob('null-deref:%s' % self.where(), pnot(a.nul), 'safety', n.get('line'))
            c = self.read(a.c)
            if isinstance(c, FreedV):
                self.ob('use-after-free:%s' % self.where(), False, 'safety', n.get('line')); raise PathEnd()
            i = toint(i) if not isinstance(i, TabVal) else i
            if isinstance(c, TabTable):
                if isinstance(i, TabVal): return i.map(lambda x: c.tab[x])
                if isinstance(i, int): return c.tab[i]
                raise Unsupported('symbolic index into ctype table')
            if isinstance(i, TabVal): i = tabz(i)
            i = add(a.i, i)
            if isinstance(c, SeqV):
                self.ob('array-bounds:%s' % self.where(), pand([le(0, i), lt(i, c.n)]), 'safety', n.get('line'))
                return a.c.e(i)
            if isinstance(c, CStrV): return self.models.cstr_at(self, c, i)
        if isinstance(a, CStrV): return self.models.cstr_at(self, a, i)
        if isinstance(a, PtrV) and a.lv is not None:
            c = self.read(a.lv)
            if isinstance(i, int) and i == 0 and not isinstance(c, SeqV): return a.lv
        raise Unsupported('subscript of %s %s' % (type(a).__name__, type(self.read(a.c)).__name__ if isinstance(a, IterV) else ''))

    def e_UnaryOperator(self, n):
        op = n['opcode']; s = n['inner'][0]
        if op in ('++', '--'):
            lv = self.ev(s)
            if not isinstance(lv, LV): raise Unsupported('++ on non-lvalue')
            v = self.read(lv)
            nv = self.incdec(v, 1 if op == '++' else -1, n)
            self.write(lv, nv)
            return v if n.get('isPostfix') else lv
        if op == '__extension__': return self.ev(s)
        if op == '&':
            v = self.ev(s)
            if isinstance(v, FuncV): return v
            if not isinstance(v, LV): raise Unsupported('& of rvalue')
            if v.path and v.path[-1][0] == 'e': return IterV(LV(v.loc, v.path[:-1]), v.path[-1][1])
            return PtrV(v)
        v = self.rv(s)
        if op == '*':
            if isinstance(v, PtrV):
                self.ob('null-deref:%s' % self.where(), pnot(v.nul), 'safety', n.get('line'))
                if v.lv is None: raise PathEnd()
                return v.lv
            if isinstance(v, IterV): return self.iter_lv(v, n)
            if isinstance(v, CStrV): return self.models.cstr_at(self, v, 0)
            if isinstance(v, FuncV): return v
            raise Unsupported('* of %s' % type(v).__name__)
        if op == '!': return pnot(self.truth(v))
        v = toint(v)
        if op == '-': return -v
        if op == '+': return v
        if op == '~':
            if isinstance(v, int): return ~v
            raise Unsupported('~ symbolic')
        raise Unsupported('unary ' + op)

    def incdec(self, v, d, n=None):
        if isinstance(v, IterV): return v.at(add(v.i, d))
        if isinstance(v, bool) or (isz(v) and z3.is_bool(v)): v = toint(v)
        if isinstance(v, CStrV): return self.models.cstr_add(self, v, d)
        return add(v, d)

    def e_BinaryOperator(self, n):
        op = n['opcode']; a, b = n['inner']
        if op == '=':
            lv = self.ev(a)
            v = self.rv(b)
            if not isinstance(lv, LV): raise Unsupported('assignment to non-lvalue')
            self.write(lv, self.coerce(v, strip_type(ctype(a))))
            return lv
        if op == ',':
            self.ev(a); return self.ev(b)
        if op in ('&&', '||'): return self.logical(op, a, b)
        x = self.rv(a); y = self.rv(b)
        return self.binop(op, x, y, strip_type(ctype(n)), n)

    def logical(self, op, a, b):
        x = self.simp(self.truth(self.rv(a)))
        if isinstance(x, bool):
            if op == '&&': return self.truth(self.rv(b)) if x else False
            return True if x else self.truth(self.rv(b))
        if self.pure(b):
            self.guards.append(x if op == '&&' else pnot(x))
            try: y = self.truth(self.rv(b))
            finally: self.guards.pop()
            return pand([x, y]) if op == '&&' else por([x, y])
        t = self.branch(x)
        if op == '&&': return self.truth(self.rv(b)) if t else False
        return True if t else self.truth(self.rv(b))

    PURE_M = {'size', 'at', 'empty', 'length', 'find', 'end', 'cend', 'begin', 'count', 'front', 'back', 'endPos', 'first', 'second'}
    def pure(self, n):
        """no side effect and no inlined branching"""
        r = n.get('_pure')
        if r is None:
            r = n['_pure'] = self.pure0(n)
        return r
    def pure0(self, n):
        k = n['kind']
        if k in ('CXXMemberCallExpr',):
            m = n['inner'][0]
            while m['kind'] in TRANSPARENT: m = m['inner'][0]
            d = self.frames[-1].tu.ids.get(m.get('referencedMemberDecl'))
            if d is not None and '_rec' in d:
                if not self.simple_getter(d): return False
            elif m.get('name') not in self.PURE_M: return False
        elif k == 'CallExpr':
            c = n['inner'][0]
            while c['kind'] in TRANSPARENT or c['kind'] == 'ImplicitCastExpr': c = c['inner'][0]
            d = c.get('referencedDecl', {})
            nm = d.get('name')
            if nm not in self.models.PURE_FUNCS:
                dd = self.frames[-1].tu.ids.get(d.get('id'))
                if not (dd is not None and self.simple_getter(dd)): return False
        elif k == 'CXXOperatorCallExpr':
            c = n['inner'][0]
            while c['kind'] in TRANSPARENT or c['kind'] == 'ImplicitCastExpr': c = c['inner'][0]
            nm = c.get('referencedDecl', {}).get('name', '')
            if nm not in ('operator==', 'operator!=', 'operator<', 'operator->', 'operator*', 'operator[]'): return False
            d = self.frames[-1].tu.ids.get(c.get('referencedDecl', {}).get('id'))
            if d is not None and self.P.definition(self.frames[-1].tu, d) is not None:
                if not self.simple_getter(d): return False
        elif k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            if strip_type(ctype(n)) in self.P.records: return False
        elif k in ('CXXNewExpr', 'CXXDeleteExpr', 'LambdaExpr', 'StmtExpr', 'CXXThrowExpr', 'CompoundAssignOperator'): return False
        elif k == 'BinaryOperator' and n['opcode'] == '=': return False
        elif k == 'UnaryOperator' and n['opcode'] in ('++', '--'): return False
        elif k == 'ConditionalOperator':
            pass
        return all(self.pure(c) for c in n.get('inner', []))

    def simple_getter(self, d):
        """single return of a pure expression"""
        df = self.P.definition(self.frames[-1].tu, d)
        if df is None: return False
        node, tu = df
        if node.get('_q') in self.contracts or node.get('_q') in self.hooks: return node.get('_q') in self.models.PURE_HOOKS
        if self.merge and self.mergeable(node, tu): return True
        r = node.get('_getter')
        if r is None:
            node['_getter'] = False
            st = node['_body'].get('inner', [])
            ok = len(st) == 1 and st[0]['kind'] == 'ReturnStmt' and bool(st[0].get('inner'))
            if ok:
                self.frames.append(Frame(node, tu, None))
                try: ok = self.pure(st[0]['inner'][0])
                finally: self.frames.pop()
            r = node['_getter'] = ok
        return r

    def e_ConditionalOperator(self, n):
        c, a, b = n['inner']
        x = self.simp(self.truth(self.rv(c)))
        if isinstance(x, bool): return self.ev(a if x else b)
        # assert-style: second arm calls a noreturn function
        f = self.noreturn_call(b)
        if f:
            self.ob('assert:%s:%s' % (self.where(), f), x, 'assert', n.get('line'))
            return self.ev(a)
        if self.pure(a) and self.pure(b):
            self.guards.append(x)
            try: va = self.rv(a)
            finally: self.guards.pop()
            self.guards.append(pnot(x))
            try: vb = self.rv(b)
            finally: self.guards.pop()
            try:
                if va is None: return None
                return ite(x, va, vb)
            except Unsupported:
                pass
        return self.ev(a if self.branch(x) else b)

    def noreturn_call(self, b):
        if b['kind'] == 'CallExpr':
            c = b['inner'][0]
            while c['kind'] in TRANSPARENT or c['kind'] == 'ImplicitCastExpr': c = c['inner'][0]
            if c.get('referencedDecl', {}).get('name') == '__assert_fail':
                s = b['inner'][1]
                while s['kind'] in TRANSPARENT or s['kind'] == 'ImplicitCastExpr': s = s['inner'][0]
                return s.get('value', '')
        return None

    def binop(self, op, x, y, t, n=None):
        line = n.get('line') if n else None
        if op in ('==', '!='):
            r = self.equal(x, y)
            return r if op == '==' else pnot(r)
        if isinstance(x, IterV) or isinstance(y, IterV): return self.iter_arith(op, x, y)
        if isinstance(x, CStrV) and op in '+-': return self.models.cstr_add(self, x, y if op == '+' else -y)
        if op == '&' and (isinstance(x, TabVal) or isinstance(y, TabVal)):
            if isinstance(x, TabVal) and isinstance(y, int): return x.map(lambda v: v & y)
            if isinstance(y, TabVal) and isinstance(x, int): return y.map(lambda v: v & x)
        if isinstance(x, TabVal) and isinstance(y, int):
            import operator as o
            f = {'+': o.add, '-': o.sub, '<<': o.lshift, '>>': o.rshift, '|': o.or_}.get(op)
            if f: return x.map(lambda v: f(v, y))
        x, y = toint(x), toint(y)
        if isinstance(x, PtrV) or isinstance(y, PtrV): raise Unsupported('pointer arithmetic')
        if op == '+': return self.wrap(add(x, y), t)
        if op == '-': return self.wrap(sub(x, y), t)
        if op == '*': return self.wrap(x * y, t)
        if op == '<': return x < y
        if op == '>': return x > y
        if op == '<=': return x <= y
        if op == '>=': return x >= y
        if op in ('/', '%'):
            self.ob('div-zero:%s' % self.where(), self.simp(y != 0) if isz(y) else y != 0, 'safety', line)
            if isinstance(x, int) and isinstance(y, int):
                q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
                return q if op == '/' else x - q * y
            if isinstance(y, int) and y > 0:
                q = z3.If(x >= 0, x / y, -((-x) / y))
                return q if op == '/' else x - q * y
            raise Unsupported('symbolic division')
        if isinstance(x, int) and isinstance(y, int):
            if op == '&': return x & y
            if op == '|': return x | y
            if op == '^': return x ^ y
            if op == '<<': return self.wrap(x << y, t)
            if op == '>>': return x >> y
        if op == '<<' and isinstance(y, int):
            r = x * (1 << y)
            if t in BITS:
                sg, b = BITS[t]
                if not self.entails(z3.And(x >= 0, r < (1 << (b - 1 if sg else b)))):
                    if not self.entails(z3.And(x >= 0, x < (1 << b))): raise Unsupported('<< of a negative value')
                    r = (x % (1 << (b - y))) * (1 << y)
                    if sg: r = z3.If(r >= (1 << (b - 1)), r - (1 << b), r)
            return r
        if op == '>>' and isinstance(y, int): return x / (1 << y)
        if op == '&' and isinstance(x, int): x, y = y, x
        if op == '&' and isinstance(y, int) and y >= 0:
            if (y & (y + 1)) == 0: return x % (y + 1)
            out, lo = None, 0
            while y >> lo:
                if not (y >> lo) & 1: lo += 1; continue
                ln = 0
                while (y >> (lo + ln)) & 1: ln += 1
                p = ((x / (1 << lo)) if lo else x) % (1 << ln)
                p = p * (1 << lo) if lo else p
                out = p if out is None else out + p
                lo += ln
            return out if out is not None else 0
        if op == '|':
            for a, c in ((x, y), (y, x)):
                k = lowzeros(a)
                if k and (0 <= c < (1 << k) if isinstance(c, int) else self.entails(z3.And(c >= 0, c < (1 << k)))): return a + c
        if op in ('|', '&', '^'):
            b = 32
            r = {'|': lambda a, c: a | c, '&': lambda a, c: a & c, '^': lambda a, c: a ^ c}[op](z3.Int2BV(z3.IntVal(x) if isinstance(x, int) else x, b), z3.Int2BV(z3.IntVal(y) if isinstance(y, int) else y, b))
            return z3.BV2Int(r, BITS.get(t, (0, 0))[0] == 1)
        raise Unsupported('binary ' + op)

    def wrap(self, v, t):
        if isinstance(v, int) and t in BITS:
            s, b = BITS[t]
            if not s: return v & ((1 << b) - 1)
            if not -(1 << (b - 1)) <= v < (1 << (b - 1)):
                self.ob('int-overflow:%s' % self.where(), False, 'safety')
            return v
        if isz(v) and t in BITS and not BITS[t][0]:
            b = BITS[t][1]
            # unsigned subtraction may wrap
            if v.decl().kind() in (z3.Z3_OP_SUB, z3.Z3_OP_ADD, z3.Z3_OP_UMINUS) and not self.entails(v >= 0):
                return z3.If(v >= 0, v, v + (1 << b))
        return v

    def equal(self, x, y):
        if isinstance(x, IterV) and isinstance(y, IterV):
            if not x.c.same(y.c): raise Unsupported('comparison of iterators into different containers')
            if x.key is not None or y.key is not None:
                if x.key is None or y.key is None or not (x.key.eq(y.key) or self.entails(x.key == y.key)): raise Unsupported('comparison of iterators of different keys')
            return eqi(x.i, y.i)
        if isinstance(x, MapIterV) or isinstance(y, MapIterV):
            return self.models.mapiter_eq(self, x, y)
        if isinstance(x, PtrV) and isinstance(y, PtrV):
            if y.lv is None and y.nul is True: return x.nul
            if x.lv is None and x.nul is True: return y.nul
            if x.lv is not None and y.lv is not None: return x.lv.same(y.lv)
        if isinstance(x, CStrV) and isinstance(y, PtrV): return False
        if isinstance(x, OpaqueV) and isinstance(y, PtrV): return self.models.opaque_isnull(self, x)
        if isinstance(x, IterV) and isinstance(y, PtrV) and y.lv is None: return x.nul
        if isinstance(y, IterV) and isinstance(x, PtrV) and x.lv is None: return y.nul
        if isinstance(x, IterV) and isinstance(y, PtrV): return False
        if hasattr(x, 'nul') and isinstance(y, PtrV) and y.lv is None: return x.nul
        if isinstance(x, SeqV) and isinstance(y, SeqV): return self.models.seq_eq(self, x, y)
        return eqv(x, y)

    def iter_arith(self, op, x, y):
        if op in ('+', '-') and isinstance(x, IterV) and not isinstance(y, IterV):
            return x.at(add(x.i, y) if op == '+' else sub(x.i, y))
        if op == '+' and isinstance(y, IterV): return y.at(add(y.i, x))
        if isinstance(x, IterV) and isinstance(y, IterV):
            if op == '-': return sub(x.i, y.i)
            return {'<': x.i < y.i, '>': x.i > y.i, '<=': x.i <= y.i, '>=': x.i >= y.i}[op]
        raise Unsupported('iterator ' + op)

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        lv = self.ev(n['inner'][0])
        y = self.rv(n['inner'][1])
        x = self.read(lv)
        t = strip_type(ctype(n))
        if op in ('|', '&') and t == 'bool':
            v = por([self.truth(x), self.truth(y)]) if op == '|' else pand([self.truth(x), self.truth(y)])
        else: v = self.binop(op, x, y, strip_type((n.get('computeResultType') or {}).get('qualType', t)), n)
        self.write(lv, self.intcast(v, 'int', t) if t in BITS and not isinstance(v, (IterV, CStrV)) and isinstance(v, int) else v)
        return lv

    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') == 'sizeof':
            t = (n.get('argType') or {}).get('desugaredQualType') or (n.get('argType') or {}).get('qualType')
            e = n['inner'][0] if n.get('inner') else None
            return self.models.sizeof(self, t or ctype(e))
        raise Unsupported('trait')

    def e_InitListExpr(self, n):
        t = strip_type(ctype(n))
        m = re.match(r'(.*)\[(\d+)\]$', t)
        items = n.get('inner', [])
        if m:
            cnt = int(m.group(2))
            if 'array_filler' in n: items = [x for x in n['array_filler'] if x['kind'] != 'ImplicitValueInitExpr'] 
            vs = [self.rv(c) for c in items]
            while len(vs) < cnt: vs.append(self.zero(m.group(1)))
            return SeqV(m.group(1).strip(), cnt, conc=vs, kind='array')
        r = self.P.records.get(t)
        if r:
            fs = self.allfields(r)
            d = {}
            for i, (nm, ft) in enumerate(fs):
                d[nm] = self.rv(items[i]) if i < len(items) else self.zero(ft)
            return StructV(t, d)
        if len(items) == 1: return self.ev(items[0])
        if not items: return self.zero(t)
        raise Unsupported('init list of ' + t)

    def e_CXXStdInitializerListExpr(self, n):
        v = self.rv(n['inner'][0])
        return v

    def e_CXXConstructExpr(self, n):
        t = strip_type(ctype(n))
        if n.get('elidable') and len(n.get('inner', [])) == 1:
            return self.rv(n['inner'][0])
        return self.construct(t, n)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXDefaultArgExpr(self, n):
        if n.get('inner'): return self.ev(n['inner'][0])
        raise Unsupported('default argument')

    def e_CXXNewExpr(self, n):
        return self.models.new_expr(self, n)
    def e_CXXDeleteExpr(self, n):
        return self.models.delete_expr(self, n)
    def e_CXXThrowExpr(self, n):
        self.ob('throw:%s' % self.where(), False, 'safety', n.get('line'))
        raise PathEnd()

    def e_LambdaExpr(self, n):
        rec = next(c for c in n['inner'] if c['kind'] == 'CXXRecordDecl')
        op = next(c for c in rec['inner'] if c['kind'] == 'CXXMethodDecl' and c.get('name') == 'operator()')
        body = [c for c in n['inner'] if c['kind'] == 'CompoundStmt'][-1]
        fn = dict(op); fn['_body'] = body; fn['_q'] = 'lambda@' + self.where()
        return FuncV(fn, self.frames[-1].tu, None, self.frames[-1])

    def call_func(self, f, args):
        """call a FuncV with values"""
        if f.lam is not None:
            args = list(args)
            fr = Frame(f.decl, f.tu, f.lam.this)
            fr.outer = f.lam
            ps = [c for c in f.decl.get('inner', []) if c['kind'] == 'ParmVarDecl']
            for p, a in zip(ps, args): self.bind(fr, p, a)
            self.frames.append(fr)
            try:
                self.exec(f.decl['_body']); return None
            except ReturnEx as e: return e.v
            finally: self.frames.pop()
        d = f.tu.ids.get(f.decl.get('id'), f.decl)
        df = self.P.definition(f.tu, d)
        if df is None: return self.models.ext_call(self, d.get('name'), list(args), None)
        return self.call(df[0], df[1], f.this, list(args))

    # calls
    def callee_decl(self, c):
        while c['kind'] in TRANSPARENT or c['kind'] == 'ImplicitCastExpr': c = c['inner'][0]
        return c

    def e_CallExpr(self, n):
        c = self.callee_decl(n['inner'][0])
        argn = n['inner'][1:]
        if c['kind'] == 'DeclRefExpr' and c['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            d = c['referencedDecl']
            tu = self.frames[-1].tu
            dn = tu.ids.get(d['id'])
            if dn is not None:
                df = self.P.definition(tu, dn)
                if df is not None and d.get('name') not in self.models.EXTERNAL:
                    args = self.evargs(argn, df[0], dn)
                    return self.call(df[0], df[1], None, args)
                if dn.get('name') in self.hooks:
                    return self.hooks[dn['name']](self, None, [self.ev(a) for a in argn], n)
            if d.get('name') == '__assert_fail':
                self.ob('assert:%s:%s' % (self.where(), argn[0].get('line')), False, 'assert', n.get('line'))
                raise PathEnd()
            self.external.add(d.get('name'))
            return self.models.ext_call(self, d.get('name'), None, n, argn)
        f = self.rv(n['inner'][0])
        if isinstance(f, FuncV): return self.call_func(f, [self.ev(a) for a in argn])
        raise Unsupported('call through %s' % type(f).__name__)

    def e_CXXMemberCallExpr(self, n):
        m = n['inner'][0]
        while m['kind'] in TRANSPARENT: m = m['inner'][0]
        if m['kind'] != 'MemberExpr': raise Unsupported('member call via ' + m['kind'])
        argn = n['inner'][1:]
        tu = self.frames[-1].tu
        d = tu.ids.get(m.get('referencedMemberDecl'))
        base = self.ev(m['inner'][0])
        if m.get('isArrow'):
            if isinstance(base, LV): base = self.read(base)
            if isinstance(base, PtrV):
                self.ob('null-deref:%s:%s' % (self.where(), m.get('name')), pnot(base.nul), 'safety', n.get('line'))
                if base.lv is None: raise PathEnd()
                base = base.lv
            elif isinstance(base, IterV): base = self.iter_lv(base, n)
            elif isinstance(base, OpaqueV) or hasattr(base, 'owner_'): pass
            else: raise Unsupported('-> call on %s' % type(base).__name__)
        if not isinstance(base, LV): base = self.alloc(base)
        if d is not None and '_rec' in d:
            if d.get('virtual') or d.get('pure'):
                q = d['_rec'] + '::' + d.get('name')
                h = self.hooks.get(q)
                if h:
                    r = h(self, base, [self.ev(a) for a in argn], d)
                    if r is not NotImplemented: return r
                o = self.read(base)
                if isinstance(o, StructV):
                    dd = self.virtual_target(o.t, d)
                    if dd: d, tu = dd
            df = self.P.definition(tu, d)
            if df is not None:
                args = self.evargs(argn, df[0], d)
                return self.call(df[0], df[1], base, args)
            h = self.hooks.get(d['_rec'] + '::' + d.get('name'))
            if h:
                r = h(self, base, [self.ev(a) for a in argn], d)
                if r is not NotImplemented: return r
        return self.models.method(self, base, m.get('name'), argn, n)

    def virtual_target(self, t, d):
        r = self.P.records.get(t)
        want = d['type']['qualType']
        for q in [t]:
            for node, tu in self.P.byname.get(q + '::' + d['name'], []):
                if params_of(node['type']['qualType'])[0] == params_of(want)[0]: return node, tu
        if r:
            for b in r.bases:
                x = self.virtual_target(b, d)
                if x: return x
        return None

    def e_CXXOperatorCallExpr(self, n):
        c = self.callee_decl(n['inner'][0])
        argn = n['inner'][1:]
        d = c['referencedDecl']
        op = d['name'][len('operator'):].strip()
        tu = self.frames[-1].tu
        dn = tu.ids.get(d['id'])
        if dn is not None:
            df = self.P.definition(tu, dn)
            if df is not None:
                if dn['kind'] == 'CXXMethodDecl':
                    # evaluation order: right operand first for assignment ops
                    if op in ('=', '+=', '-='):
                        args = self.evargs(argn[1:], df[0], dn)
                        base = self.ev(argn[0])
                    else:
                        base = self.ev(argn[0])
                        args = self.evargs(argn[1:], df[0], dn)
                    if not isinstance(base, LV): base = self.alloc(base)
                    return self.call(df[0], df[1], base, args)
                return self.call(df[0], df[1], None, self.evargs(argn, df[0], dn))
            if dn['kind'] == 'CXXMethodDecl' and dn.get('_rec') and op == '=' :
                # implicitly defined assignment
                h = self.hooks.get(dn['_rec'] + '::operator=')
                v = self.rv(argn[1]); lv = self.ev(argn[0])
                if h: return h(self, lv, [v], n)
                self.write(lv, v); return lv
            if dn['kind'] == 'CXXMethodDecl' and self.hooks.get(dn.get('_rec', '') + '::' + dn['name']):
                base = self.ev(argn[0])
                return self.hooks[dn['_rec'] + '::' + dn['name']](self, base, [self.ev(a) for a in argn[1:]], n)
        return self.models.operator(self, op, argn, n)

    # ---------------------------------------------------------- statements
    def exec(self, n):
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        if m is None:
            self.ev(n); return
        m(n)

    def s_Null(self, n): pass
    def s_NullStmt(self, n): pass
    def s_AttributedStmt(self, n): self.exec(n['inner'][-1])
    def s_LabelStmt(self, n): self.exec(n['inner'][0])

    def s_CompoundStmt(self, n):
        sts = n.get('inner', [])
        i = 0
        while i < len(sts):
            try:
                self.exec(sts[i]); i += 1
            except GotoEx as g:
                j = self.find_label(sts, g.l)
                if j is None: raise
                if j <= i: raise Unsupported('backward goto')
                i = j

    def find_label(self, sts, l):
        for j, s in enumerate(sts):
            while s['kind'] == 'LabelStmt':
                if s.get('declId') == l: return j
                s = s['inner'][0]
        return None

    def s_GotoStmt(self, n): raise GotoEx(n.get('targetLabelDeclId'))

    def s_DeclStmt(self, n):
        for d in n['inner']:
            if d['kind'] == 'VarDecl': self.declare(d)

    def declare(self, d, val=None):
        fr = self.frames[-1]
        t = ctype(d)
        ini = None
        for c in d.get('inner', []):
            if c['kind'] != 'Null' and not c['kind'].endswith('Attr') and not c['kind'].endswith('Comment'): ini = c
        if val is not None: v = val
        elif ini is None:
            v = self.default(t)
        else:
            v = self.ev(ini)
        if t.endswith('&'):
            if not isinstance(v, LV): v = self.alloc(v)
            lv = v
        else:
            if isinstance(v, LV): v = self.read(v)
            lv = self.alloc(self.coerce(v, strip_type(t)))
        fr.vars[d['id']] = lv
        fr.names[d.get('name')] = lv

    def s_ReturnStmt(self, n):
        if not n.get('inner'): raise ReturnEx(None)
        v = self.ev(n['inner'][0])
        fn = self.frames[-1].fn
        rt = (fn.get('type') or {}).get('qualType', '')
        if not self.returns_ref(fn):
            if isinstance(v, LV): v = self.read(v)
            t = strip_type(re.split(r'\(', rt, 1)[0]) if rt else ''
            if t == 'bool' : v = self.truth(v) if not isinstance(v, bool) else v
        raise ReturnEx(v)

    def returns_ref(self, fn):
        t = (fn.get('type') or {}).get('qualType', '')
        if t.startswith('auto'):
            return False
        d = 0
        for i, ch in enumerate(t):
            if ch == '<': d += 1
            elif ch == '>': d -= 1
            elif ch == '(' and d == 0: return t[:i].rstrip().endswith('&')
        return False

    def s_IfStmt(self, n):
        inner = list(n['inner'])
        if n.get('hasInit'): self.exec(inner.pop(0))
        if n.get('hasVar'): self.exec(inner.pop(0))
        c = inner[0]
        if self.branch(self.rv(c)): self.exec(inner[1])
        elif len(inner) > 2: self.exec(inner[2])

    def s_BreakStmt(self, n): raise BreakEx()
    def s_ContinueStmt(self, n): raise ContinueEx()

    def s_SwitchStmt(self, n):
        inner = [c for c in n['inner'] if c['kind'] != 'Null']
        cond, body = inner[-2], inner[-1]
        v = toint(self.rv(cond))
        flat = []      # (labels or None, stmt)
        for s in body.get('inner', []):
            labs = []
            while s['kind'] in ('CaseStmt', 'DefaultStmt'):
                if s['kind'] == 'DefaultStmt': labs.append('default'); s = s['inner'][0]
                else:
                    cs = [c for c in s['inner'] if c['kind'] != 'Null']
                    if len(cs) == 3: labs.append((self.rv(cs[0]), self.rv(cs[1])))
                    else: labs.append(self.rv(cs[0]))
                    s = cs[-1]
            flat.append((labs, s))
        start = None; dflt = None
        for i, (labs, s) in enumerate(flat):
            if 'default' in labs: dflt = i
            ls = [l for l in labs if l != 'default']
            if not ls: continue
            if 'default' in labs: continue
            if self.branch(por([pand([le(l[0], v), le(v, l[1])]) if isinstance(l, tuple) else eqi(v, l) for l in ls])):
                start = i; break
        if start is None: start = dflt
        if start is None: return
        try:
            i = start
            while i < len(flat):
                try:
                    self.exec(flat[i][1]); i += 1
                except GotoEx as g:
                    j = self.find_label([s for _, s in flat], g.l)
                    if j is None: raise
                    if j <= i: raise Unsupported('backward goto')
                    i = j
        except BreakEx: pass

    def s_CXXTryStmt(self, n):
        self.exec(n['inner'][0])

    # ---- loops
    def s_WhileStmt(self, n):
        inner = [c for c in n['inner']]
        cond, body = inner[-2], inner[-1]
        self.loop(n, cond, body, None)

    def s_DoStmt(self, n):
        body, cond = n['inner'][0], n['inner'][1]
        # do B while(C)  ==  B; while (C) B    (first iteration peeled)
        try: self.exec(body)
        except ContinueEx: pass
        except BreakEx: return
        self.loop(n, cond, body, None)

    def s_ForStmt(self, n):
        init, _, cond, inc, body = n['inner']
        if init['kind'] != 'Null': self.exec(init)
        self.loop(n, cond if cond['kind'] != 'Null' else None, body, inc if inc['kind'] != 'Null' else None)

    def eval_cond(self, cond):
        if cond is None: return True
        return self.simp(self.truth(self.rv(cond)))

    def small_count(self, n, cond):
        """a counter with a known value against a small literal: unrolled, whatever contract the loop was given"""
        if cond is None or cond['kind'] != 'BinaryOperator' or cond.get('opcode') not in ('<', '<=', '!=', '>', '>='): return False
        def strip(x):
            while x['kind'] in ('ImplicitCastExpr', 'ParenExpr'): x = x['inner'][0]
            return x
        a, b = map(strip, cond['inner'])
        if a['kind'] != 'DeclRefExpr' or b['kind'] != 'IntegerLiteral' or int(b['value']) > 16: return False
        lv = self.frames[-1].names.get(a['referencedDecl']['name'])
        if lv is None: return False
        try: v = self.deref_lv(lv)
        except Exception: return False
        return isinstance(v, int) and not isinstance(v, bool) and 0 <= v <= 16
    def loop(self, n, cond, body, inc):
        fr = self.frames[-1]
        spec = None if self.small_count(n, cond) else self.loop_spec(n)
        count = 0
        if spec is not None and spec.get('unroll'):
            while self.branch(self.rv(cond) if cond is not None else True):
                count += 1
                if count > spec['unroll']:
                    if spec.get('soft'): raise Unsupported('loop unrolling limit')
                    self.ob('loop-bound:%s' % self.loopkey(n), False, 'termination', n.get('line')); raise PathEnd()
                try: self.exec(body)
                except ContinueEx: pass
                except BreakEx: return
                if inc is not None: self.ev(inc)
                self.tick()
            return
        if spec is None:
            # concrete unrolling as long as the condition folds to a constant
            while True:
                snap = (dict(self.store), self.nloc, len(self.trace), len(self.facts))
                nid = self.nfresh
                symbolic = False
                if cond is not None and not self.pure(cond):
                    try:
                        g = self.probe(cond)
                    except Unsupported:
                        g = None
                    if g is None: symbolic = True
                else:
                    c = self.eval_cond(cond)
                    if not isinstance(c, bool): symbolic = True
                    else: g = c
                    if symbolic:
                        self.store = snap[0]; self.nloc = snap[1]
                if symbolic: break
                if not g: return
                count += 1
                if count > 5000: raise Unsupported('loop unrolling limit')
                if cond is None and count > 200: break
                try: self.exec(body)
                except ContinueEx: pass
                except BreakEx: return
                if inc is not None: self.ev(inc)
                self.tick()
        self.cut_loop(n, cond, body, inc, spec)

    def probe(self, cond):
        """evaluate an impure condition if it folds to a constant without branching"""
        snap = (dict(self.store), self.nloc, self.nfresh)
        tr, pf, fa = list(self.trace), self.prefix, len(self.facts)
        g0 = list(self.guards)
        self.guards.append(z3.BoolVal(True))
        try:
            c = self.eval_cond(cond)
            if isinstance(c, bool): return c
        except Unsupported:
            pass
        finally:
            self.guards = g0
        self.store = snap[0]; self.nloc = snap[1]; self.nfresh = snap[2]
        return None

    def loop_spec(self, n):
        fr = self.frames[-1]
        c = self.contracts.get(fr.q)
        specs = getattr(c, 'loops', None) or self.loopspecs.get(fr.q) if hasattr(self, 'loopspecs') else (getattr(c, 'loops', None))
        if not specs: return None
        if '_loops' not in fr.fn:
            l = []
            def w(x):
                if x['kind'] in ('WhileStmt', 'ForStmt', 'DoStmt', 'CXXForRangeStmt'): l.append(id(x))
                for y in x.get('inner', []): w(y)
            w(fr.fn['_body']); fr.fn['_loops'] = l
        try: i = fr.fn['_loops'].index(id(n))
        except ValueError: return None
        if callable(specs): return specs(self, i, n)
        return specs.get(i)

    def modset(self, nodes):
        out = set()
        for n in nodes:
            if n is not None: self._mod(n, out)
        return out

    def root(self, e):
        while True:
            k = e['kind']
            if k in TRANSPARENT or k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'MaterializeTemporaryExpr'):
                if e.get('castKind') == 'LValueToRValue' and strip_type(ctype(e)).endswith('*'): pass
                e = e['inner'][0]
            elif k == 'DeclRefExpr': return ('v', e['referencedDecl'].get('id'))
            elif k == 'CXXThisExpr': return ('this',)
            elif k == 'MemberExpr':
                b = e['inner'][0]
                if e.get('isArrow'):
                    r = self.root(b)
                    if r == ('this',): return ('this', e.get('name'))
                    return ('deref', r)
                r = self.root(b)
                return r
            elif k == 'ArraySubscriptExpr': return ('deref', self.root(e['inner'][0]))
            elif k == 'UnaryOperator' and e['opcode'] == '*': return ('deref', self.root(e['inner'][0]))
            elif k == 'UnaryOperator' and e['opcode'] in ('&', '++', '--'): e = e['inner'][0]
            elif k == 'CXXOperatorCallExpr':
                nm = self.callee_decl(e['inner'][0]).get('referencedDecl', {}).get('name', '')
                r = self.root(e['inner'][1])
                if nm in ('operator*', 'operator->'): return ('deref', r)
                return r
            elif k == 'CXXMemberCallExpr':
                m = e['inner'][0]
                while m['kind'] in TRANSPARENT: m = m['inner'][0]
                r = self.root(m['inner'][0])
                return ('deref', r) if m.get('isArrow') and r != ('this',) else r
            elif k == 'BinaryOperator' and e['opcode'] in ('=', '+', '-'): e = e['inner'][0]
            elif k == 'CompoundAssignOperator': e = e['inner'][0]
            elif k == 'ConditionalOperator': e = e['inner'][1]
            else: return None

    CONST_M = {'size', 'at', 'empty', 'length', 'find', 'end', 'begin', 'count', 'front', 'back', 'cbegin', 'cend', 'c_str', 'data',
               'substr', 'equal_range', 'compare', 'rbegin', 'rend', 'to_bytes', 'from_bytes', 'is_open', 'capacity', 'get', 'lower_bound', 'upper_bound'}
    def leaves(self, n, brk):
        """statement after which no further iteration follows"""
        def cont(x): return x['kind'] in ('ContinueStmt', 'GotoStmt', 'LambdaExpr') or any(cont(y) for y in x.get('inner', []))
        l = n['inner'][-1] if n['kind'] == 'CompoundStmt' and n.get('inner') else n
        return (l['kind'] == 'ReturnStmt' or l['kind'] == 'BreakStmt' and brk) and not cont(n)
    def _mod(self, n, out, brk=True):
        k = n['kind']
        if k in ('ReturnStmt', 'CompoundStmt') and self.leaves(n, brk): return
        if k in ('SwitchStmt', 'WhileStmt', 'ForStmt', 'DoStmt', 'CXXForRangeStmt'): brk = False
        def addr(e):
            r = self.root(e)
            if r is not None: out.add(r)
        if k == 'BinaryOperator' and n['opcode'] == '=': addr(n['inner'][0])
        elif k == 'CompoundAssignOperator': addr(n['inner'][0])
        elif k == 'UnaryOperator' and n['opcode'] in ('++', '--'): addr(n['inner'][0])
        elif k == 'CXXOperatorCallExpr':
            nm = self.callee_decl(n['inner'][0]).get('referencedDecl', {}).get('name', '')
            if nm in ('operator=', 'operator+=', 'operator-=', 'operator++', 'operator--', 'operator<<', 'operator>>', 'operator[]'):
                ty = self.callee_decl(n['inner'][0]).get('referencedDecl', {}).get('type', {}).get('qualType', '')
                if not (nm == 'operator[]' and re.search(r'\)\s*const\b', ty)): addr(n['inner'][1])
            self._callmods(self.callee_decl(n['inner'][0]).get('referencedDecl', {}).get('type', {}).get('qualType', ''),
                           n['inner'][1:] if self.callee_decl(n['inner'][0]).get('referencedDecl', {}).get('kind') == 'FunctionDecl' else n['inner'][2:], out)
        elif k == 'CXXMemberCallExpr':
            m = n['inner'][0]
            while m['kind'] in TRANSPARENT: m = m['inner'][0]
            d = self.frames[-1].tu.ids.get(m.get('referencedMemberDecl'))
            if d is not None and '_rec' in d:
                ty = d['type']['qualType']
                if not re.search(r'\)\s*const\b', ty):
                    r = self.root(m['inner'][0])
                    if m.get('name') not in self.CONST_M and m.get('name') not in ('outBegin', 'outEnd', 'inBegin', 'inEnd'):
                        if r is not None: out.add(('deref', r) if m.get('isArrow') and r != ('this',) else r)
                self._callmods(ty, n['inner'][1:], out)
            elif m.get('name') not in self.CONST_M:
                r = self.root(m['inner'][0])
                if r is not None: out.add(('deref', r) if m.get('isArrow') else r)
        elif k == 'CallExpr':
            c = self.callee_decl(n['inner'][0])
            self._callmods(c.get('referencedDecl', {}).get('type', {}).get('qualType', ''), n['inner'][1:], out)
        elif k == 'LambdaExpr': pass
        elif k == 'CXXConstructExpr' and 'ctorType' in n:
            self._callmods(n['ctorType']['qualType'], n.get('inner', []), out)
        for c in n.get('inner', []): self._mod(c, out, brk)

    def _callmods(self, ty, args, out):
        ps, _ = params_of(ty)
        for p, a in zip(ps, args):
            if p.endswith('&') and not p.endswith('&&') and not p.startswith('const '):
                r = self.root(a)
                if r is not None: out.add(r)
            elif p.endswith('*') and not (p.startswith('const ') and p.count('*') == 1):
                r = self.root(a)
                e = a
                while e['kind'] in TRANSPARENT or e['kind'] in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXReinterpretCastExpr'): e = e['inner'][0]
                at = e['kind'] == 'UnaryOperator' and e['opcode'] == '&'
                if at: out.add(self.root(e['inner'][0]))
                if r is not None and not (at and p.startswith('const ')): out.add(('deref', r))

    def resolve_roots(self, mods):
        """-> list of LVs to havoc (existing before the loop)"""
        fr = self.frames[-1]
        out = []
        def put(lv):
            if not any(l.same(lv) for l in out): out.append(lv)
        def res(r):
            if r is None: return None
            if r[0] == 'v':
                f = fr
                while f is not None:
                    if r[1] in f.vars: return f.vars[r[1]]
                    f = getattr(f, 'outer', None)
                return None
            if r[0] == 'this':
                if fr.this is None: return None
                return fr.this.f(r[1]) if len(r) > 1 else fr.this
            if r[0] == 'deref':
                lv = res(r[1])
                if lv is None: return None
                try: v = self.read(lv)
                except Exception: return None
                if isinstance(v, PtrV): return v.lv
                if isinstance(v, IterV): return v.c
                return lv
        for r in mods:
            lv = res(r)
            if lv is not None: put(lv)
        # drop those nested in another
        return [l for l in out if not any(o is not l and o.loc == l.loc and len(o.path) < len(l.path) and LV(l.loc, l.path[:len(o.path)]).same(o) for o in out)]

    def havoc_val(self, v, name):
        if isinstance(v, bool): return z3.Bool(name)
        if isinstance(v, int): return z3.Int(name)
        if isz(v): return z3.Const(name, v.sort())
        if isinstance(v, str): return z3.String(name)
        if isinstance(v, IterV): return v.at(z3.Int(name + '.i'))
        if isinstance(v, StructV):
            h = self.fresh_hooks.get(v.t)
            if h: return h(self, name, ())
            return StructV(v.t, {k: self.havoc_val(x, name + '.' + k) for k, x in v.f.items()})
        if isinstance(v, SeqV):
            n = z3.Int(name + '.n'); self.fact(n >= 0)
            key = None
            if v.kind == 'u16':
                key = (z3.Int(name + '.id'), 0); self.fact(key[0] >= 0)
            if v.kind == 'array': n = v.n
            return SeqV(v.et, n, lambda j: self.fresh(v.et, name + '[]', (j,)), None, key, v.kind)
        if isinstance(v, RefV): return v
        if isinstance(v, OpaqueV): return OpaqueV(v.t, {k: self.havoc_val(x, name + '.' + k) for k, x in v.d.items()})
        if isinstance(v, PtrV): return PtrV(v.lv, v.nul)
        if hasattr(v, 'havoc_'): return v.havoc_(self, name)
        raise Unsupported('havoc of %s' % type(v).__name__)

    def loopkey(self, n):
        fr = self.frames[-1]
        if '_loops' not in fr.fn:
            self.loop_spec_index(fr)
        try: return '%s#%d' % (fr.q, fr.fn['_loops'].index(id(n)))
        except ValueError: return '%s#?' % fr.q

    def loop_spec_index(self, fr):
        l = []
        def w(x):
            if x['kind'] in ('WhileStmt', 'ForStmt', 'DoStmt', 'CXXForRangeStmt'): l.append(id(x))
            for y in x.get('inner', []): w(y)
        if '_body' in fr.fn: w(fr.fn['_body'])
        fr.fn['_loops'] = l

    def num(self, v):
        if isinstance(v, IterV): return v.i
        if isinstance(v, bool): return None
        if isinstance(v, int): return v
        if isz(v) and z3.is_int(v): return v
        return None

    def cut_loop(self, n, cond, body, inc, spec):
        key = self.loopkey(n)
        fr = self.frames[-1]
        mods = self.modset([cond, body, inc])
        lvs = self.resolve_roots(mods)
        if spec and spec.get('modifies'):
            lvs = spec['modifies'](self, lvs)
        entry = dict(self.store)
        ctx = LoopCtx(self, fr, entry)
        if not spec or not spec.get('inv'): self.imprecise = True
        self.check_inv(spec, ctx, key, 'entry')
        self.cand_entry(spec, ctx, key)
        # Houdini candidates
        bounds = []
        vs = []
        for lv in lvs:
            v0 = self.read(lv)
            if self.num(v0) is not None and not isinstance(v0, bool): vs.append((lv, v0))
            elif isinstance(v0, StructV):
                for k, x in v0.f.items():
                    if self.num(x) is not None: vs.append((lv.f(k), x))
        modlocs = {l.loc for l in lvs}
        for nm, l in list(fr.names.items()):
            if l.loc in modlocs: continue
            try: x = self.read(l)
            except Exception: continue
            if isinstance(x, SeqV): bounds.append((nm + '.n', x.n))
            elif isinstance(x, IterV): bounds.append((nm + '.i', x.i))
            elif self.num(x) is not None: bounds.append((nm, x))
            elif isinstance(x, str): bounds.append((nm + '.len', len(x)))
            elif isz(x) and z3.is_string(x): bounds.append((nm + '.len', z3.Length(x)))
            elif isinstance(x, StructV):
                for k, y in x.f.items():
                    if isinstance(y, IterV): bounds.append((nm + '.' + k, y.i))
        for e in self.cond_ends(cond):
            bounds.append(e)
        for lv, v0 in vs:
            # containers the iterator points into
            if isinstance(v0, IterV) and v0.c.loc not in modlocs:
                c = self.read(v0.c)
                if isinstance(c, SeqV): bounds.append(('cont.n', c.n))
        pre = {}
        cands = []
        for i, (lv, v0) in enumerate(vs):
            x0 = self.num(v0)
            nm = 'v%d' % i
            cands.append(((key, nm, 'ge0'), lv, lambda x, x0=x0: x >= x0))
            cands.append(((key, nm, 'le0'), lv, lambda x, x0=x0: x <= x0))
            for bn, b in bounds:
                cands.append(((key, nm, 'le:' + bn), lv, lambda x, b=b: x <= b))
                cands.append(((key, nm, 'ge:' + bn), lv, lambda x, b=b: x >= b))
        live = []
        for ck, lv, f in cands:
            if ck in self.dis: continue
            g = f(self.num(self.read(lv)))
            g = self.simp(g)
            if g is not True:
                if g is False or not self.quick(g):
                    self.dis.add(ck); continue
            live.append((ck, lv, f))
        base = 'h!%s!%d' % (key, self.newid())
        lost = self.containers(lvs, spec)
        for i, lv in enumerate(lvs):
            v0 = self.read(lv)
            h = spec['havoc'](self, v0, '%s.%d' % (base, i)) if spec and spec.get('havoc') else None
            if h is None:
                if isinstance(v0, PtrV): raise Unsupported('pointer changed by a loop')
                h = self.havoc_val(v0, '%s.%d' % (base, i))
            self.write(lv, h)
        for ck, lv, f in live: self.assume(f(self.num(self.read(lv))))
        self.assume_inv(spec, ctx)
        self.cand_assume(spec, ctx, key)
        self.unspoken(spec, ctx, key, base, lost)
        meas = self.measures(spec, ctx, cond, vs)
        m0 = [(k, f()) for k, f in meas]
        c = self.rv(cond) if cond is not None else True
        if self.branch(c):
            try:
                self.exec(body)
            except ContinueEx: pass
            except BreakEx:
                return
            if inc is not None: self.ev(inc)
            for ck, lv, f in live:
                g = self.simp(f(self.num(self.read(lv))))
                if g is True: continue
                if self.replaying(): continue
                if not self.quick(g):
                    self.dis.add(ck); self.rerun = True
            self.cand_preserved(spec, ctx, key)
            self.check_inv(spec, ctx, key, 'preserved')
            self.check_measure(key, spec, meas, m0)
            raise PathEnd()

    def containers(self, lvs, spec):
        skip = spec.get('about') if spec else None
        def c(v): return not (skip and skip(v)) and c0(v)
        def c0(v): return isinstance(v, SeqV) and v.kind != 'array' or isinstance(v, str) or isz(v) and z3.is_string(v)
        return [i for i, lv in enumerate(lvs) if c(self.read(lv))]

    def unspoken(self, spec, ctx, key, base, lost):
        """a container filled by the loop that no invariant speaks about: what follows is under abstraction"""
        if not lost or self.imprecise: return
        if self.spoken is None: self.spoken = {}
        if (key, tuple(lost)) not in self.spoken:
            syms = set(); seen = set()
            def w(f):
                if not isz(f) or f.get_id() in seen: return
                seen.add(f.get_id())
                if z3.is_quantifier(f): w(f.body()); return
                if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_UNINTERPRETED: syms.add(f.decl().name())
                for x in f.children(): w(x)
            for c in list(spec['inv'](ctx)) + list(spec['cands'](ctx) if spec.get('cands') else []): w(c[1])
            self.spoken[(key, tuple(lost))] = all(any(y == '%s.%d' % (base, i) or y.startswith(('%s.%d.' % (base, i), '%s.%d[' % (base, i))) for y in syms) for i in lost)
        if not self.spoken[(key, tuple(lost))]:
            self.imprecise = True
            if os.environ.get('VDEBUG'): print('no invariant about a container in', key)

    def quick(self, g):
        g = self.simp(g)
        if isinstance(g, bool): return g
        st, _, _, _ = self.check(g, self.quickms, fast=self.fastquick)
        return st == 'ok'

    def cond_ends(self, cond):
        """sizes mentioned in the loop condition"""
        out = []
        def w(e, i=[0]):
            if e['kind'] == 'CXXMemberCallExpr' and self.pure(e):
                m = e['inner'][0]
                if m.get('name') in ('size', 'length', 'end', 'cend'):
                    try:
                        self.guards.append(z3.BoolVal(True)); self.muted = True
                        v = self.num(self.rv(e))
                        if v is not None: out.append(('cond%d' % len(out), v))
                    except Unsupported: pass
                    finally: self.guards.pop(); self.muted = False
            for y in e.get('inner', []): w(y)
        if cond is not None: w(cond)
        return out

    def measures(self, spec, ctx, cond, vs):
        ms = []
        if spec and spec.get('measure'):
            ms.append(('spec', lambda: spec['measure'](ctx)))
            return ms
        if spec and spec.get('lex') and spec['lex'](ctx) is not None:
            return [('lex', lambda: spec['lex'](ctx))]
        def num_of(e):
            def f():
                g0 = self.guards; self.guards = g0 + [z3.BoolVal(True)]; self.muted = True
                try: return self.num(self.rv(e))
                finally: self.guards = g0; self.muted = False
            return f
        def w(e):
            while e['kind'] in TRANSPARENT or e['kind'] == 'ImplicitCastExpr': e = e['inner'][0]
            if e['kind'] == 'BinaryOperator' and e['opcode'] in ('&&', ','):
                for x in e['inner']: w(x)
            elif e['kind'] == 'BinaryOperator' and e['opcode'] in ('<', '>', '<=', '>=', '!='):
                a, b = e['inner']
                if self.pure(a) and self.pure(b): ms.append(('c%d' % len(ms), num_of(a), num_of(b)))
            elif e['kind'] == 'CXXOperatorCallExpr' and len(e['inner']) == 3:
                a, b = e['inner'][1], e['inner'][2]
                if self.pure(a) and self.pure(b): ms.append(('c%d' % len(ms), num_of(a), num_of(b)))
        if cond is not None: w(cond)
        out = []
        for k, a, b in ms:
            def mk(a, b):
                def f():
                    try: x, y = a(), b()
                    except Unsupported: return None
                    if x is None or y is None: return None
                    return sub(y, x)
                return f
            out.append((k + '+', mk(a, b)))
            out.append((k + '-', mk(b, a)))
        return out

    def check_measure(self, key, spec, meas, m0):
        if spec and spec.get('no_termination'): return
        if self.replaying(): return
        live = [(k, f, v) for (k, f), (_, v) in zip(meas, m0) if (key, 'm', k) not in self.dis and v is not None]
        ok = False
        for k, f, v in live:
            x = f()
            if x is None: self.dis.add((key, 'm', k)); continue
            if isinstance(v, tuple):
                g = False
                for a, b in reversed(list(zip(x, v))): g = por([pand([lt(a, b), le(0, b)]), pand([eqi(a, b), g])])
                g = self.simp(g)
            else: g = self.simp(pand([x < v, v >= 0]))
            if g is True or (g is not False and self.quick(g)): ok = True
            else:
                self.dis.add((key, 'm', k))
        self.record('loop-terminates:%s' % key, 'ok' if ok else 'unknown', None, None, 0, 'z3', 'termination')

    def check_inv(self, spec, ctx, key, when):
        if spec and spec.get('step'): spec['step'](ctx, when)
        if not spec or not spec.get('inv'): return
        for nm, f in spec['inv'](ctx):
            self.ob('inv:%s:%s:%s' % (key, nm, when), f, 'invariant')

    # candidate invariants (kept only when inductive)
    def cands(self, spec, ctx, key):
        if not spec or not spec.get('cands'): return []
        return [((key, 'c', c[0]), c[1]) for c in spec['cands'](ctx) if (key, 'c', c[0]) not in self.dis]
    def cand_entry(self, spec, ctx, key):
        if self.replaying(): return
        self.dis.update(self.refuted(self.cands(spec, ctx, key)))
    def refuted(self, cs):
        """the candidates that do not hold here: all at once while that works, one by one otherwise"""
        bad = []; left = []
        for ck, f in cs:
            g = self.simp(f)
            if g is True: continue
            if g is False: bad.append(ck)
            else: left.append((ck, zb(g)))
        while len(left) > 1:
            st, m, _, _ = self.check(z3.And([g for _, g in left]), self.quickms, fast=self.fastquick)
            if st == 'ok': return bad
            if m is None: break
            no = [ck for ck, g in left if z3.is_false(m.eval(g, model_completion=True))]
            if not no: break
            bad += no; left = [(ck, g) for ck, g in left if ck not in no]
        return bad + [ck for ck, g in left if not self.quick(g)]
    def cand_assume(self, spec, ctx, key):
        if not spec or not spec.get('cands'): return
        for c in spec['cands'](ctx):
            if (key, 'c', c[0]) in self.dis: continue
            self.assume(c[1])
            if len(c) > 2: self.assume(c[2])       # the same for all values of the arbitrary constant in c[1]
    def cand_preserved(self, spec, ctx, key):
        if self.replaying(): return
        bad = self.refuted(self.cands(spec, ctx, key))
        if bad: self.dis.update(bad); self.rerun = True

    def assume_inv(self, spec, ctx):
        if spec and spec.get('step'): spec['step'](ctx, 'assume')
        if not spec or not spec.get('inv'): return
        for nm, f in spec['inv'](ctx): self.assume(f)

    def s_CXXForRangeStmt(self, n):
        inner = [c for c in n['inner'] if c['kind'] != 'Null']
        fr = self.frames[-1]
        # __range, __begin, __end, cond, inc, loopvar, body
        decls = [c for c in inner if c['kind'] == 'DeclStmt']
        rng, beg, end, var = decls[-4], decls[-3], decls[-2], decls[-1]
        for s in decls[:-4]: self.exec(s)
        body = inner[-1]
        vd = var['inner'][0]
        self.exec(rng)
        rv_ = self.frames[-1].names.get(rng['inner'][0].get('name'))
        cv = self.read(rv_)
        if isinstance(cv, (MapV, SetV)):
            for it in cv.items:
                v = StructV('pair', {'first': it[0], 'second': it[1]}) if isinstance(cv, MapV) else it
                self.declare_loopvar(vd, self.alloc(v))
                try: self.exec(body)
                except ContinueEx: pass
                except BreakEx: return
            return
        self.exec(beg); self.exec(end)
        b = self.read(fr.names[beg['inner'][0]['name']]); e = self.read(fr.names[end['inner'][0]['name']])
        if not isinstance(b, IterV) or not isinstance(e, IterV): raise Unsupported('range-for over %s' % type(b).__name__)
        spec = self.loop_spec(n)
        if isinstance(b.i, int) and isinstance(e.i, int) and (spec is None or spec.get('unroll') or e.i - b.i <= 16):
            for i in range(b.i, e.i):
                self.declare_loopvar(vd, b.c.e(i))
                try: self.exec(body)
                except ContinueEx: pass
                except BreakEx: return
            return
        key = self.loopkey(n)
        mods = self.modset([body])
        byref = ctype(vd).endswith('&') and ('v', vd['id']) in mods and not ctype(vd).startswith('const')
        mods.discard(('v', vd['id']))
        lvs = self.resolve_roots(mods)
        if spec and spec.get('modifies'): lvs = spec['modifies'](self, lvs)
        if any(l.loc == b.c.loc and (len(l.path) <= len(b.c.path)) and LV(b.c.loc, b.c.path[:len(l.path)]).same(l) for l in lvs):
            if not (spec and spec.get('allow_container_mod')): raise Unsupported('container modified during range-for')
        entry = dict(self.store)
        ctx = LoopCtx(self, fr, entry)
        ctx.idx = b.i; ctx.begin = b.i; ctx.end = e.i; ctx.cont = b.c
        if not spec or not spec.get('inv'): self.imprecise = True
        self.check_inv(spec, ctx, key, 'entry')
        self.cand_entry(spec, ctx, key)
        vs = []
        for lv in lvs:
            v0 = self.read(lv)
            if self.num(v0) is not None and not isinstance(v0, bool): vs.append((lv, v0))
        cands = []
        for i, (lv, v0) in enumerate(vs):
            x0 = self.num(v0)
            cands.append(((key, 'v%d' % i, 'ge0'), lv, lambda x, x0=x0: x >= x0))
            cands.append(((key, 'v%d' % i, 'le0'), lv, lambda x, x0=x0: x <= x0))
        live = [c for c in cands if c[0] not in self.dis]
        base = 'h!%s!%d' % (key, self.newid())
        lost = self.containers(lvs, spec)
        for i, lv in enumerate(lvs):
            self.write(lv, self.havoc_val(self.read(lv), '%s.%d' % (base, i)))
        idx = z3.Int(base + '.idx')
        self.assume(z3.And(idx >= b.i, idx <= e.i))
        if byref:
            c0 = self.read(b.c)
            new = self.havoc_val(c0, base + '.elems')
            self.write(b.c, c0.clone(conc=None, atf=lambda j: c0.at(j) if isz(j) and j.eq(idx) else ite(z3.Or(j >= idx, j < b.i), c0.at(j), new.at(j))))
        ctx.idx = idx
        for ck, lv, f in live: self.assume(f(self.num(self.read(lv))))
        self.assume_inv(spec, ctx)
        self.cand_assume(spec, ctx, key)
        self.unspoken(spec, ctx, key, base, lost)
        if self.branch(idx < e.i):
            self.declare_loopvar(vd, b.c.e(idx))
            try: self.exec(body)
            except ContinueEx: pass
            except BreakEx: return
            ctx.idx = add(idx, 1)
            for ck, lv, f in live:
                g = self.simp(f(self.num(self.read(lv))))
                if g is True or self.replaying(): continue
                if not self.quick(g): self.dis.add(ck); self.rerun = True
            self.cand_preserved(spec, ctx, key)
            self.check_inv(spec, ctx, key, 'preserved')
            raise PathEnd()
        ctx.idx = e.i

    def declare_loopvar(self, vd, lv):
        fr = self.frames[-1]
        if not ctype(vd).endswith('&'):
            v = self.read(lv)
            e = vd['inner'][0] if vd.get('inner') else None
            if e is not None and e['kind'] == 'ImplicitCastExpr' and e.get('castKind') == 'IntegralCast':
                v = self.intcast(v, strip_type(ctype(e['inner'][0])), strip_type(ctype(e)))
            lv = self.alloc(v)
        fr.vars[vd['id']] = lv
        fr.names[vd.get('name')] = lv

    # ---------------------------------------------------------- driver
    def explore(self, run, maxpaths=None):
        """run(self) executes one path; explores all."""
        while True:
            self.rerun = False
            self.obs_backup = self.obs
            self.obs = {}
            self.work = [[]]
            npaths = 0
            while self.work:
                pf = self.work.pop()
                self.reset(pf)
                npaths += 1
                if npaths > (maxpaths or self.maxpaths): raise Unsupported('too many paths')
                try:
                    run(self)
                except PathEnd: pass
                except ReturnEx: pass
            self.stats['paths'] += npaths
            if not self.rerun: break
        return self.obs

class TabTable:
    def __init__(self, tab): self.tab = tab

class LoopCtx:
    def __init__(self, I, fr, entry):
        self.I, self.fr, self.entry = I, fr, entry
        self.names0 = dict(fr.names)        # variables in scope of the loop
        self.g = {}
    def iters(self, clv):
        """positions of the iterator variables of the frame that point into clv"""
        out = []
        for nm, lv in self.fr.names.items():
            try: v = self.I.read(lv)
            except Exception: continue
            if isinstance(v, IterV) and v.c.same(clv): out.append((nm, v.i))
        if getattr(self, 'cont', None) is not None and self.cont.same(clv): out.append(('idx', self.idx))
        return out
    def var(self, name): return self.I.read(self.fr.names[name])
    def lv(self, name): return self.fr.names[name]
    def at_entry(self, lv):
        s = self.I.store
        self.I.store = self.entry
        try: return self.I.read(lv)
        finally: self.I.store = s
    @property
    def this(self): return self.fr.this

# writes through a character reference update the string it belongs to
_w0 = Interp.write
def _write(self, lv, val):
    from models import CharLV, chr_str
    if isinstance(lv, CharLV):
        s = self.read(lv.sb); i = lv.si
        c = chr_str(val)
        if isinstance(s, str) and isinstance(i, int) and isinstance(c, str):
            ns = s[:i] + c + s[i+1:]
        else:
            i = z3.IntVal(i) if isinstance(i, int) else i
            s = zstr(s)
            ns = z3.Concat(z3.SubString(s, z3.IntVal(0), i), zstr(c), z3.SubString(s, i + 1, z3.Length(s) - i - 1))
        self.write(lv.sb, ns)
        self.store[lv.loc] = val
        return
    _w0(self, lv, val)
Interp.write = _write
