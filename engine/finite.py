"""Path summaries of loop-free code over finite domains, evaluated completely
(case-analysis back end): every z3 term is compiled to python and evaluated on
every point of the domain."""
import z3
from vals import *

class Compiler:
    def __init__(self, names):
        self.names = names          # z3 constant name -> python variable
        self.lines = []; self.memo = {}; self.n = 0
    def c(self, e):
        if isinstance(e, bool): return repr(e)
        if isinstance(e, (int, str)): return repr(e)
        k = e.get_id()
        if k in self.memo: return self.memo[k][0]
        r = self.c0(e)
        self.memo[k] = (r, e)
        return r
    def c0(self, e):
        if z3.is_true(e): return 'True'
        if z3.is_false(e): return 'False'
        if z3.is_int_value(e): return str(e.as_long())
        if z3.is_string_value(e): return repr(unzstr(e.as_string()))
        if z3.is_quantifier(e): raise Unsupported('finite: quantifier')
        d = e.decl(); k = d.kind(); a = e.children()
        if k == z3.Z3_OP_UNINTERPRETED and not a:
            if d.name() not in self.names: raise Unsupported('finite: free constant %s' % d.name())
            return self.names[d.name()]
        x = [None] * len(a)
        if k == z3.Z3_OP_ITE:
            return '(%s if %s else %s)' % (self.c(a[1]), self.c(a[0]), self.c(a[2]))
        x = [self.c(y) for y in a]
        J = lambda op: '(' + (' %s ' % op).join(x) + ')'
        K = {z3.Z3_OP_AND: 'and', z3.Z3_OP_OR: 'or', z3.Z3_OP_EQ: '==', z3.Z3_OP_LE: '<=', z3.Z3_OP_GE: '>=', z3.Z3_OP_LT: '<', z3.Z3_OP_GT: '>',
             z3.Z3_OP_ADD: '+', z3.Z3_OP_SUB: '-', z3.Z3_OP_MUL: '*', z3.Z3_OP_SEQ_CONCAT: '+', z3.Z3_OP_DISTINCT: '!='}
        if k in K and not (k == z3.Z3_OP_DISTINCT and len(a) != 2): return J(K[k])
        if k == z3.Z3_OP_NOT: return '(not %s)' % x[0]
        if k == z3.Z3_OP_IMPLIES: return '((not %s) or %s)' % (x[0], x[1])
        if k == z3.Z3_OP_UMINUS: return '(-%s)' % x[0]
        if k == z3.Z3_OP_SEQ_LENGTH: return 'len(%s)' % x[0]
        if k == z3.Z3_OP_SEQ_EXTRACT: return '(%s[%s:%s+%s])' % (x[0], x[1], x[1], x[2])
        if k in (z3.Z3_OP_INT_TO_STR,): return 'str(%s)' % x[0]
        if k == z3.Z3_OP_MOD: return '(%s %% %s)' % tuple(x)
        if d.name() in ('str.from_code',): return 'chr(%s)' % x[0]
        if d.name() in ('str.to_code',): return 'ord(%s)' % x[0]
        raise Unsupported('finite: operator %s' % d.name())

def compile_fn(e, params):
    c = Compiler({p: p for p in params})
    body = c.c(e)
    if len(body) > 2000000: raise Unsupported('finite: term too large')
    return eval('lambda %s: %s' % (','.join(params), body))

class Summary:
    """decision tree over the explored paths"""
    def __init__(self, params): self.params = params; self.root = {}; self.n = 0
    def add(self, pcs, trace, val):
        node = self.root
        for c, d in zip(pcs, trace):
            if 'c' not in node:
                pos = c if d else (c.children()[0] if z3.is_not(c) else z3.Not(c))
                node['c'] = compile_fn(pos, self.params)
            node = node.setdefault(bool(d), {})
        node['v'] = compile_fn(val, self.params) if isz(val) else (lambda *a, v=val: v)
        self.n += 1
    def __call__(self, *a):
        node = self.root
        while 'v' not in node:
            d = bool(node['c'](*a))
            if d not in node: return None
            node = node[d]
        return node['v'](*a)

def summarize(I, run, params, maxpaths=5000):
    """run(I) -> value (term over the integer constants params)"""
    S = Summary(params)
    def r(I):
        v = run(I)
        S.add(I.pcs, I.trace, v)
    I.explore(r, maxpaths)
    return S
