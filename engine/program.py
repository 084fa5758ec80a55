"""Links the per-TU ASTs: functions by mangled name, records, enums, globals."""
import re, os
import front

def strip_type(t):
    t = t.strip()
    while True:
        o = t
        for p in ('const ', 'volatile ', 'class ', 'struct ', 'enum ', 'typename '):
            if t.startswith(p): t = t[len(p):]
        t = re.sub(r'\s*(&&|&)$', '', t)
        t = re.sub(r'\s+const$', '', t)
        t = t.strip()
        if t == o: return t

def ctype(n):
    ty = n.get('type') or {}
    return ty.get('desugaredQualType') or ty.get('qualType') or ''

def targs(t):
    """template args of 'X<a, b>'"""
    i = t.find('<')
    if i < 0 or not t.endswith('>'): return []
    return splitc(t[i+1:-1])
def splitc(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([{': d += 1
        if ch in '>)]}': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def params_of(fnty):
    """parameter type strings of 'R (A, B) const'"""
    d = 0
    for i, ch in enumerate(fnty):
        if ch == '<': d += 1
        elif ch == '>': d -= 1
        elif ch == '(' and d == 0:
            k, e = i, 0
            for j in range(i, len(fnty)):
                if fnty[j] == '(': e += 1
                if fnty[j] == ')':
                    e -= 1
                    if e == 0: break
            rest = fnty[j+1:]
            inner = fnty[i+1:j]
            if inner.startswith('*'):   # function pointer  R (*)(A)
                return params_of(fnty[:i].rstrip() + ' ' + fnty[j+1:])
            return ([] if inner in ('', 'void') else splitc(inner)), rest
    return [], ''

class TU:
    def __init__(self, path, tops):
        self.path = path; self.tops = tops
        self.ids = {}          # decl id -> node
        self.rec_of = {}       # method decl id -> record key

class Record:
    def __init__(self, name, node, tu):
        self.name, self.node, self.tu = name, node, tu
        self.fields, self.bases, self.ctors, self.methods = [], [], [], {}

class Program:
    def __init__(self, paths=None, extra=()):
        asts = front.dump_all(list(paths or front.sources()) + list(extra))
        self.tus = [TU(p, t) for p, t in asts.items()]
        self.funcs = {}        # mangled -> (node, tu)
        self.byname = {}       # qualname -> [(node, tu)]
        self.records = {}
        # of the repository, at file scope, and of <stdint.h>
        self.typedefs = {'uint8_t': 'unsigned char', 'int8_t': 'signed char', 'uint16_t': 'unsigned short', 'int16_t': 'short', 'uint32_t': 'unsigned int',
                         'int32_t': 'int', 'uint64_t': 'unsigned long', 'int64_t': 'long', 'size_t': 'unsigned long', 'AlphaChar': 'unsigned int'}
        self.enums = {}        # name -> {const: value}
        self.enumval = {}      # (tu, id) -> value
        self.globals = {}      # mangled -> (node, tu)
        for tu in self.tus:
            self._walk(tu, tu.tops, '', None, False)
        for tu in self.tus:
            for n in tu.tops: self._outofline(tu, n)

    def _name_spec(self, n):
        nm = n.get('name', '')
        a = [strip_type(ctype(c)) for c in n.get('inner', []) if c['kind'] == 'TemplateArgument' and 'type' in c]
        return '%s<%s>' % (nm, ', '.join(a)) if a else nm

    def _walk(self, tu, nodes, pfx, rec, intempl):
        for n in nodes:
            k = n['kind']
            if 'id' in n: tu.ids[n['id']] = n
            if k in ('CXXRecordDecl', 'RecordDecl', 'ClassTemplateSpecializationDecl'):
                nm = self._name_spec(n) if k.startswith('ClassTemplateS') else n.get('name', '')
                q = pfx + nm
                n['_q'] = q
                if not intempl and n.get('completeDefinition'):
                    r = Record(q, n, tu)
                    for b in n.get('bases', []): r.bases.append(strip_type(ctype(b)))
                    for c in n.get('inner', []):
                        if c['kind'] == 'FieldDecl': r.fields.append(c)
                        elif c['kind'] == 'CXXConstructorDecl': r.ctors.append((c, tu))
                    if q not in self.records: self.records[q] = r
                    else:
                        # keep one with most declarations (implicit ones may differ)
                        if len(r.ctors) > len(self.records[q].ctors): self.records[q] = r
                self._walk(tu, n.get('inner', []), q + '::', n, intempl)
            elif k == 'ClassTemplateDecl':
                for c in n.get('inner', []):
                    if c['kind'] == 'CXXRecordDecl': self._walk(tu, [c], pfx, rec, True)
                    elif c['kind'] == 'ClassTemplateSpecializationDecl': self._walk(tu, [c], pfx, rec, False)
            elif k == 'FunctionTemplateDecl':
                first = True
                for c in n.get('inner', []):
                    if c['kind'] in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
                        self._walk(tu, [c], pfx, rec, first)
                        first = False
            elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
                n['_tu'] = tu
                if rec is not None: n['_rec'] = rec['_q']
                n['_templ'] = intempl
                self._walk_ids(tu, n.get('inner', []), pfx)
            elif k == 'EnumDecl':
                self._enum(tu, n)
            elif k == 'TypedefDecl' and not pfx:
                self.typedefs[n['name']] = strip_type(ctype(n))
            elif k == 'VarDecl':
                n['_tu'] = tu
                m = n.get('mangledName')
                if m and any('kind' in c for c in n.get('inner', [])):
                    if m not in self.globals or n.get('init'): self.globals[m] = (n, tu)
                self._walk_ids(tu, n.get('inner', []), pfx)
            else:
                if 'inner' in n:
                    self._walk(tu, n['inner'], pfx + (n['name'] + '::' if k == 'NamespaceDecl' and n.get('name') else ''), rec, intempl)

    def _walk_ids(self, tu, nodes, pfx):
        for n in nodes:
            k = n['kind']
            if k.endswith('Decl') and 'id' in n:
                tu.ids[n['id']] = n
                n['_tu'] = tu
                if k == 'EnumDecl': self._enum(tu, n)
                if k in ('CXXRecordDecl', 'RecordDecl'):
                    self._walk(tu, [n], pfx, None, False)
                    continue
            if 'inner' in n: self._walk_ids(tu, n['inner'], pfx)

    def _enum(self, tu, n):
        v = -1; d = {}
        for c in n.get('inner', []):
            if c['kind'] != 'EnumConstantDecl': continue
            tu.ids[c['id']] = c
            val = None
            def find(x):
                if x['kind'] == 'ConstantExpr' and 'value' in x: return int(x['value'])
                if x['kind'] == 'IntegerLiteral': return int(x['value'])
                for y in x.get('inner', []):
                    r = find(y)
                    if r is not None: return r
            for x in c.get('inner', []):
                val = find(x)
            v = val if val is not None else v + 1
            d[c['name']] = v
            self.enumval[(tu.path, c['id'])] = v
        if n.get('name'): self.enums[n['name']] = d

    def _outofline(self, tu, n):
        k = n['kind']
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            if '_rec' not in n and 'parentDeclContextId' in n:
                p = tu.ids.get(n['parentDeclContextId'])
                if p is not None and '_q' in p:
                    n['_rec'] = p['_q']
            prev = tu.ids.get(n.get('previousDecl'))
            if prev is not None and '_rec' in prev and '_rec' not in n: n['_rec'] = prev['_rec']
            n['_q'] = (n['_rec'] + '::' if n.get('_rec') else '') + n.get('name', '')
            if n.get('_templ'): return
            body = [c for c in n.get('inner', []) if c['kind'] == 'CompoundStmt']
            if body and not n.get('explicitlyDefaulted'):
                m = n.get('mangledName') or n['_q']
                n['_body'] = body[0]
                if m not in self.funcs: self.funcs[m] = (n, tu)
                self.byname.setdefault(n['_q'], [])
                if all(x[0].get('mangledName') != n.get('mangledName') or
                       (n.get('storageClass') == 'static' or n['_q'] == 'main') and x[1] is not tu for x in self.byname[n['_q']]):
                    self.byname[n['_q']].append((n, tu))
            return
        for c in n.get('inner', []) or []:
            if c['kind'] in ('CXXRecordDecl', 'ClassTemplateDecl', 'ClassTemplateSpecializationDecl',
                             'NamespaceDecl', 'LinkageSpecDecl', 'FunctionTemplateDecl',
                             'FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
                self._outofline(tu, c)

    def definition(self, tu, decl):
        """(node, tu) of the definition of a declared function, or None"""
        m = decl.get('mangledName')
        if decl.get('storageClass') == 'static' and '_rec' not in decl:
            if '_body' in decl: return decl, tu
            for n, t in self.byname.get(decl.get('name'), []):
                if t is tu and n.get('mangledName') == m: return n, t
        if m in self.funcs: return self.funcs[m]
        return None

    def one(self, q, npar=None, pred=None):
        l = self.byname.get(q, [])
        l = [x for x in l if npar is None or sum(c['kind'] == 'ParmVarDecl' for c in x[0]['inner']) == npar]
        if pred: l = [x for x in l if pred(x[0])]
        return l[0] if l else None

    def line(self, q):
        return None
