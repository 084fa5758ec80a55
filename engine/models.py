"""Meaning of the external functions and std:: classes used by /repo
(trusted base: the C++ standard's description of them)."""
import re, ctypes, functools, z3
from vals import *
from program import strip_type, ctype, targs

PURE_FUNCS = {'th_uni2tis', 'th_wcistis', 'islower', 'isupper', 'tolower', 'toupper', 'isalpha', 'isspace', 'isdigit', 'move', 'forward', 'strcmp', 'min', 'max',
              'isprint', 'isblank', 'ispunct', '__builtin_expect'}
PURE_HOOKS = set()
EXTERNAL = set()

def norm(t):
    t = strip_type(t)
    return t[5:] if t.startswith('std::') else t
def is_string(t):
    t = norm(t)
    t = t.replace('__cxx11::', '')
    return t in ('string', 'basic_string<char>', 'basic_string<char, char_traits<char>, allocator<char>>',
                 'basic_string<char, std::char_traits<char>, std::allocator<char>>', 'byte_string')
def is_u16(t):
    t = norm(t).replace('__cxx11::', '')
    return t == 'u16string' or t.startswith('basic_string<char16_t') or t == 'wide_string'
def seq_kind(t):
    t = norm(t).replace('__cxx11::', '')
    if is_u16(t): return 'u16', 'char16_t'
    if t == 'wstring' or t.startswith('basic_string<wchar_t'): return 'wide', 'wchar_t'
    for k in ('list', 'vector', 'deque'):
        if t.startswith(k + '<'): return k, targs(t)[0]
    if t.startswith('initializer_list<'): return 'list', targs(t)[0]
    if t.startswith('multimap<') or t.startswith('map<'):
        a = targs(t)
        return ('multimap' if t[1] == 'u' else 'map'), 'std::pair<%s, %s>' % (a[0], a[1])
    if t.startswith('set<') or t.startswith('multiset<'): return t.split('<')[0], targs(t)[0]
    m = re.match(r'(.*)\[(\d+)\]$', t)
    if m: return 'array', m.group(1).strip()
    return None

def default_value(I, t):
    if t in I.fresh_hooks: return None
    if is_string(t): return ''
    n = norm(t)
    if n.startswith('unordered_set<'): return SetV([])
    if n.startswith('unordered_map<'): return MapV([])
    m = re.match(r'(.*)\[(\d+)\]$', n)
    if m:
        cnt = int(m.group(2))
        nm = 'uninit!%d' % I.newid()
        return SeqV(m.group(1).strip(), cnt, lambda j: I.fresh(m.group(1).strip(), nm + '[]', (j,)), kind='array')
    k = seq_kind(t)
    if k and k[0] == 'multimap' and I.mmap:
        import multimap as mmap
        return mmap.empty(I, k[1])
    if k: return SeqV(k[1], 0, conc=[], kind=k[0])
    if n.startswith('unique_ptr<') or n.startswith('shared_ptr<'): return PtrV(None)
    if n.startswith('wstring_convert<') or n.startswith('codecvt') or n.startswith('allocator<') or n in ('locale',): return OpaqueV(n.split('<')[0])
    if n.startswith('pair<'):
        a = targs(n)
        return StructV('pair', {'first': I.default(a[0]), 'second': I.default(a[1])})
    if n in ('ifstream', 'basic_ifstream<char>', 'ofstream', 'ostringstream', 'stringstream', 'basic_ostringstream<char>', 'istringstream', 'basic_istringstream<char>', 'basic_stringstream<char>'):
        return OpaqueV('stream', {'buf': ''})
    if re.search(r'iterator', n) or n.startswith('_List') or n.startswith('_Rb_tree') or n.startswith('__gnu_cxx::__normal'):
        return OpaqueV('iterator')
    return None

# the character class bits of <thai/thctype.h>
TH_ENUM = {'_th_IStis': 1, '_th_IScons': 2, '_th_CClassMsk': 0xe, '_th_CCtailless': 2, '_th_CCovershoot': 6, '_th_CCundershoot': 0xa, '_th_CCundersplit': 0xe,
           '_th_ISvowel': 0x10, '_th_VClassMsk': 0x70, '_th_VCflvowel': 0x10, '_th_VCldvowel': 0x30, '_th_VCupvowel': 0x50, '_th_VCblvowel': 0x70,
           '_th_IStone': 0x80, '_th_ISdiac': 0x100, '_th_ISdigit': 0x200, '_th_ISpunct': 0x400}
def std_enum(n): return TH_ENUM.get(n)

@functools.lru_cache(None)
def thai_tables():
    lib = ctypes.CDLL('libthai.so.0')
    f = lib.th_uni2tis; f.argtypes = [ctypes.c_uint32]; f.restype = ctypes.c_ubyte
    uni = [f(c) for c in range(65536)]
    tab = list((ctypes.c_ushort * 256).in_dll(lib, '_th_ctype_tbl'))
    return uni, tab

def global_model(I, nm):
    if nm == '_th_ctype_tbl':
        from interp import TabTable
        return TabTable(thai_tables()[1])
    if nm in ('cout', 'cerr', 'clog'): return I.ghost.setdefault('stream:' + nm, OpaqueV('stream', {'buf': ''}))
    if nm == 'cin': return OpaqueV('istream', {})
    if nm in ('stdin', 'stdout', 'stderr'): return OpaqueV('FILE', {})
    if nm in ('npos',): return (1 << 64) - 1
    return None

def opaque_truth(I, v):
    if 'ok' in v.d: return v.d['ok']
    raise Unsupported('truth of opaque ' + v.t)
def opaque_isnull(I, v): return v.d.get('null', False)
def sizeof(I, t):
    t = strip_type(t)
    t = I.P.typedefs.get(t, t)
    from interp import BITS
    if t in BITS: return BITS[t][1] // 8
    if t.endswith('*'): return 8
    m = re.match(r'(.*)\[(\d+)\]$', t)
    if m: return sizeof(I, m.group(1)) * int(m.group(2))
    r = I.P.records.get(t)
    if r: return I.leaf('sizeof:' + t, z3.IntSort(), ())
    raise Unsupported('sizeof ' + t)

# ------------------------------------------------------------------ strings
def c_unescape(s):
    out = []; i = 0
    simple = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', '"': '"', "'": "'", 'a': '\a', 'b': '\b', 'f': '\f', 'v': '\v', '?': '?', 'e': '\x1b'}
    while i < len(s):
        c = s[i]
        if c != '\\':
            out.append(c.encode('utf-8', 'surrogateescape').decode('latin-1')); i += 1; continue
        d = s[i+1]
        if d == 'x':
            m = re.match(r'[0-9a-fA-F]+', s[i+2:])
            out.append(chr(int(m.group(0), 16) & 255)); i += 2 + len(m.group(0))
        elif d in '01234567':
            m = re.match(r'[0-7]{1,3}', s[i+1:])
            out.append(chr(int(m.group(0), 8))); i += 1 + len(m.group(0))
        elif d in 'uU':
            k = 4 if d == 'u' else 8
            out.append(chr(int(s[i+2:i+2+k], 16)).encode('utf-8').decode('latin-1')); i += 2 + k
        else:
            out.append(simple[d]); i += 2
    return ''.join(out)

def string_literal(n):
    v = n['value']
    m = re.match(r'(u8|u|U|L)?"(.*)"$', v, re.S)
    if not m: raise Unsupported('string literal ' + v[:30])
    if m.group(1) == 'u':
        u = c_unescape(m.group(2)).encode('latin-1').decode('utf-8')
        cs = []
        b = u.encode('utf-16-le')
        cs = [b[i] | b[i+1] << 8 for i in range(0, len(b), 2)]
        return CStrV(SeqV('char16_t', len(cs), conc=cs, kind='u16'))
    if m.group(1) in ('U', 'L'): raise Unsupported('wide literal')
    return CStrV(c_unescape(m.group(2)))

def slen(s): return len(s) if isinstance(s, str) else z3.Length(s)
def char_code(s1):
    """1-char z3 string -> signed char value"""
    c = z3.StrToCode(s1)
    return z3.If(c >= 128, c - 256, c)
def str_at(I, s, i):
    if isinstance(s, str):
        if isinstance(i, int):
            if i == len(s): return 0
            c = ord(s[i]); return c - 256 if c >= 128 else c
        s = zstr(s)
    return char_code(z3.SubString(s, i if isz(i) else z3.IntVal(i), z3.IntVal(1)))
def cstr_at(I, v, i):
    if isinstance(v.s, SeqV):
        return v.s.at(i) if not (isinstance(i, int) and isinstance(v.s.n, int) and i == v.s.n) else 0
    s = v.s
    if isinstance(s, str) and isinstance(i, int):
        I.ob('cstr-bounds:%s' % I.where(), 0 <= i <= len(s), 'safety')
        return str_at(I, s, i)
    n = slen(s)
    I.ob('cstr-bounds:%s' % I.where(), z3.And(i >= 0, i <= n), 'safety')
    return z3.If(i == n if isz(i == n) else z3.BoolVal(i == n), z3.IntVal(0), str_at(I, zstr(s), i))
def cstr_add(I, v, d):
    s = v.s
    if isinstance(s, str) and isinstance(d, int):
        if not 0 <= d <= len(s):
            I.ob('cstr-bounds:%s' % I.where(), False, 'safety')
        return CStrV(s[d:])
    I.ob('cstr-bounds:%s' % I.where(), z3.And(zi(d) >= 0, zi(d) <= slen(s)), 'safety')
    return CStrV(z3.SubString(zstr(s), zi(d), slen(s) - d))
def zi(x): return z3.IntVal(x) if isinstance(x, int) else x
def chr_str(c):
    if isinstance(c, bool): c = int(c)
    if isinstance(c, int): return chr(c & 255)
    c = toint(c)
    return z3.StrFromCode(z3.If(c < 0, c + 256, c))
def tostr(v):
    if hasattr(v, 'stoi_'): return v
    if isinstance(v, CStrV): return v.s
    if isinstance(v, str) or (isz(v) and z3.is_string(v)): return v
    if isinstance(v, int) or (isz(v) and z3.is_int(v)): return chr_str(v)
    raise Unsupported('string from %s' % type(v).__name__)
def is_str(v): return isinstance(v, (str,)) or (isz(v) and z3.is_string(v))

def str_lt(a, b):
    if isinstance(a, str) and isinstance(b, str): return a < b
    return zstr(a) < zstr(b)

# ------------------------------------------------------------- sequences eq
def seq_rank(I, s):
    b, st = seqkey(s)
    if s.conc is not None and not s.conc: return z3.RealVal(0)
    r = RK(zi(b), zi(st), zi(s.n))
    I.fact(z3.And(r >= 0, (r == 0) == (zi(s.n) == 0)))
    return r
def u16_facts(I, a, b):
    """equal ranks <-> equal contents"""
    ra, rb = seq_rank(I, a), seq_rank(I, b)
    I.fact(z3.Implies(ra == rb, zi(a.n) == zi(b.n)))
    return ra, rb
def seq_eq(I, a, b):
    if a.conc is not None and b.conc is not None and all(isinstance(x, int) for x in a.conc + b.conc):
        return a.conc == b.conc
    if a.kind == 'u16' or b.kind == 'u16':
        for x, y in ((a, b), (b, a)):
            if y.conc is not None and x.conc is None:
                return pand([eqi(x.n, y.n)] + [eqv(x.at(i), v) for i, v in enumerate(y.conc)])
        ra, rb = u16_facts(I, a, b)
        return ra == rb
    if a.conc is not None and b.conc is not None:
        if len(a.conc) != len(b.conc): return False
        return pand([elem_eq(I, x, y) for x, y in zip(a.conc, b.conc)])
    raise Unsupported('sequence ==')
def elem_eq(I, x, y):
    if isinstance(x, StructV):
        d = I.P.one(x.t + '::operator==')
        if d:
            r = I.call(d[0], d[1], I.alloc(x), [I.alloc(y)])
            return r
    return I.equal(x, y)
def mapiter_eq(I, x, y):
    if isinstance(x, MapIterV) and isinstance(y, MapIterV):
        if y.key is None: return x.isend
        if x.key is None: return y.isend
    raise Unsupported('comparison of map iterators')

# ------------------------------------------------------------- construction
def construct(I, t, e, argn):
    argn = [a for a in argn if a['kind'] != 'CXXDefaultArgExpr']
    n = norm(t).replace('__cxx11::', '')
    if t in I.fresh_hooks and hasattr(I.fresh_hooks[t], 'construct'):
        return I.fresh_hooks[t].construct(I, e, argn)
    vals = [I.rv(a) for a in argn]
    if is_string(t):
        if not vals: return ''
        if len(vals) == 1 and isinstance(vals[0], IterV) and 'string_of' in I.hooks: return I.hooks['string_of'](I, vals[0])
        if len(vals) == 1: return tostr(vals[0])
        if len(vals) == 2 and (isinstance(vals[1], int) or isz(vals[1])) and isinstance(vals[0], CStrV):
            v = vals[0].s
            if isinstance(v, str) and isinstance(vals[1], int): return v[:vals[1]]
            return z3.SubString(zstr(v), z3.IntVal(0), zi(vals[1]))
        if len(vals) == 2 and isinstance(vals[0], int): return chr_str(vals[1]) * vals[0] if isinstance(chr_str(vals[1]), str) else _unsup('string fill')
        if len(vals) >= 2 and is_str(vals[0]): return substr(I, vals[0], vals[1], vals[2] if len(vals) > 2 else None)
        raise Unsupported('string constructor')
    if n.startswith('pair<'):
        if len(vals) == 1 and isinstance(vals[0], StructV):
            a = targs(n)
            return StructV('pair', {'first': conv_to(vals[0].f['first'], a[0]), 'second': conv_to(vals[0].f['second'], a[1])})
        if len(vals) == 2:
            a = targs(n)
            return StructV('pair', {'first': conv_to(vals[0], a[0]), 'second': conv_to(vals[1], a[1])})
    if n.startswith('unordered_set<'):
        if not vals: return SetV([])
        if isinstance(vals[0], SetV): return vals[0]
        return SetV([conv_to(x, targs(n)[0]) for x in vals[0].conc])
    if n.startswith('unordered_map<'):
        if not vals: return MapV([])
        if isinstance(vals[0], MapV): return vals[0]
        return mkmap([(x.f['first'], x.f['second']) for x in vals[0].conc])
    k = seq_kind(t)
    if k:
        kind, et = k
        if kind == 'multimap' and I.mmap:
            if not vals: return default_value(I, t)
            if len(vals) == 1: return vals[0]
            raise Unsupported('constructor of ' + t)
        if not vals: return SeqV(et, 0, conc=[], kind=kind)
        v = vals[0]
        if len(vals) == 1:
            if isinstance(v, SeqV):
                if kind in ('map',): return mk_ordmap(I, v, kind, et)
                if v.kind == kind or kind in ('list', 'vector'): return SeqV(et, v.n, v.atf, v.conc, v.key, kind)
            if isinstance(v, CStrV) and isinstance(v.s, SeqV): return v.s
            if isinstance(v, int) and kind == 'vector': return SeqV(et, v, conc=[I.zero(et) for _ in range(v)], kind=kind)
        if len(vals) == 2:
            if isinstance(v, IterV):
                c = I.read(v.c)
                if isinstance(c, SeqV):
                    r = c.slice(v.i, sub(vals[1].i, v.i)); return SeqV(et, r.n, r.atf, r.conc, r.key, kind)
            if isinstance(v, (int,)) and kind == 'u16': return SeqV(et, v, conc=[vals[1]] * v, kind=kind)
            if isinstance(v, (int,)) and kind == 'vector': return SeqV(et, v, conc=[vals[1]] * v, kind=kind)
            if kind == 'vector' and isz(v) and z3.is_int(v): return SeqV(et, v, lambda j: vals[1], kind=kind)
            if kind == 'u16' and isz(v): return SeqV(et, v, lambda j: vals[1], key=None, kind=kind)
        if kind == 'u16' and isinstance(v, SeqV) and len(vals) in (2, 3):
            return seq_substr(I, v, vals[1], vals[2] if len(vals) > 2 else None)
        if kind == 'u16' and isinstance(v, CStrV) and isinstance(v.s, SeqV) and len(vals) == 2: return v.s.slice(0, vals[1])
        raise Unsupported('constructor of ' + t)
    if n.startswith('unique_ptr<') or n.startswith('shared_ptr<'):
        return vals[0] if vals else PtrV(None)
    if len(vals) == 1 and isinstance(vals[0], (IterV, MapIterV, PtrV)): return vals[0]
    if len(vals) == 1 and isinstance(vals[0], OpaqueV): return vals[0]
    d = default_value(I, t)
    if d is not None and not vals: return d
    if n.startswith('wstring_convert<') or n.startswith('locale') or n.startswith('allocator'): return OpaqueV(n.split('<')[0])
    if n in ('ifstream', 'basic_ifstream<char>'): return OpaqueV('stream', {'buf': ''})
    if t in I.fresh_hooks and len(vals) == 1 and not isinstance(vals[0], (int, str)): return vals[0]
    raise Unsupported('construction of %s' % t)

def _unsup(m): raise Unsupported(m)
def conv_to(v, t):
    if is_string(t): return tostr(v)
    if strip_type(t) != 'bool' and (isinstance(v, bool) or (isz(v) and z3.is_bool(v))): return toint(v)
    return v
def mkmap(items):
    out = []
    for k, v in items:
        if isinstance(k, CStrV): k = k.s
        if isinstance(v, CStrV): v = v.s
        if not any(eqv(k, k2) is True for k2, _ in out): out.append((k, v))
    return MapV(out)
def mk_ordmap(I, v, kind, et):
    items = mkmap([(x.f['first'], x.f['second']) for x in v.conc]).items
    items.sort(key=lambda p: p[0])
    return MapV(items)

def substr(I, s, a, n=None):
    ln = slen(s)
    I.ob('substr-range:%s' % I.where(), (zi(a) <= zi(ln)) if isz(a) or isz(ln) else a <= ln, 'safety')
    if isinstance(s, str) and isinstance(a, int) and (n is None or isinstance(n, int)):
        return s[a:] if n is None else s[a:a + n]
    if n is None: n = sub(zi(ln), zi(a))
    return z3.SubString(zstr(s), zi(a), zi(n))
def seq_substr(I, c, a, n):
    I.ob('substr-range:%s' % I.where(), a <= c.n if not (isz(a) or isz(c.n)) else zi(a) <= zi(c.n), 'safety')
    if n is None or (isinstance(n, int) and n >= 1 << 62): n2 = sub(c.n, a)
    else:
        rest = sub(c.n, a)
        if isinstance(n, int) and isinstance(rest, int): n2 = min(n, rest)
        elif I.entails(zi(n) <= zi(rest)): n2 = n
        elif I.entails(zi(n) >= zi(rest)): n2 = rest
        else: n2 = z3.If(zi(n) <= zi(rest), zi(n), zi(rest))
    return c.slice(a, n2)

# ------------------------------------------------------------- ext functions
def ctype_tab(pred):
    return [i for i in range(-128, 256) if pred(i & 255)]
def ext_call(I, name, args, n=None, argn=None):
    h = I.hooks.get(name)
    if h: return h(I, None, args if args is not None else [I.ev(a) for a in argn], n)
    if name in ('move', 'forward', 'as_const', '__builtin_expect', 'addressof'):
        return I.ev(argn[0]) if args is None else args[0]
    if name == 'swap':
        a, b = I.ev(argn[0]), I.ev(argn[1])
        x, y = I.read(a), I.read(b); I.write(a, y); I.write(b, x); return None
    if args is None: args = [I.rv(a) for a in argn if a['kind'] != 'CXXDefaultArgExpr']
    else: args = [I.deref_lv(a) for a in args]
    if name == 'th_uni2tis':
        c = args[0]
        uni = thai_tables()[0]
        if isinstance(c, int): return uni[c]
        return TabVal(c, uni)
    if name in ('islower', 'isupper', 'isdigit', 'isalpha', 'isspace', 'isalnum', 'ispunct'):
        c = args[0]
        P = {'islower': lambda b: 97 <= b <= 122, 'isupper': lambda b: 65 <= b <= 90, 'isdigit': lambda b: 48 <= b <= 57,
             'isalpha': lambda b: 65 <= b <= 90 or 97 <= b <= 122, 'isspace': lambda b: b in (32, 9, 10, 11, 12, 13),
             'isalnum': lambda b: 48 <= b <= 57 or 65 <= b <= 90 or 97 <= b <= 122,
             'ispunct': lambda b: 33 <= b <= 47 or 58 <= b <= 64 or 91 <= b <= 96 or 123 <= b <= 126}[name]
        if isinstance(c, int): return 1 if (0 <= c < 128 and P(c)) else 0
        return toint(inranges(c, [i for i in range(128) if P(i)]))
    if name in ('toupper', 'tolower'):
        c = args[0]
        if name == 'toupper':
            return (c - 32 if 97 <= c <= 122 else c) if isinstance(c, int) else z3.If(z3.And(c >= 97, c <= 122), c - 32, c)
        return (c + 32 if 65 <= c <= 90 else c) if isinstance(c, int) else z3.If(z3.And(c >= 65, c <= 90), c + 32, c)
    if name == 'make_pair':
        a = [tostr(x) if False else x for x in args]
        return StructV('pair', {'first': a[0], 'second': a[1]})
    if name in ('min', 'max'):
        a, b = args[0], args[1]
        if isinstance(a, int) and isinstance(b, int): return min(a, b) if name == 'min' else max(a, b)
        c = (b < a) if name == 'min' else (a < b)
        return ite(c, b, a)
    if name == 'abs':
        a = args[0]
        return abs(a) if isinstance(a, int) else z3.If(a >= 0, a, -a)
    if name in ('distance',): return sub(args[1].i, args[0].i)
    if name in ('next', 'prev'):
        d = args[1] if len(args) > 1 else 1
        return args[0].at(add(args[0].i, d) if name == 'next' else sub(args[0].i, d))
    if name in ('begin', 'cbegin'): return method(I, I.ev(argn[0]), 'begin', [], n)
    if name in ('end', 'cend'): return method(I, I.ev(argn[0]), 'end', [], n)
    if name in ('any_of', 'all_of', 'none_of', 'find_if', 'find', 'count_if', 'for_each', 'count', 'find_if_not', 'accumulate', 'equal', 'lexicographical_compare'):
        return algorithm(I, name, args, n)
    if name == 'stoi':
        return stoi(I, args[0])
    if name == 'to_string':
        return int_str(args[0])
    if name == 'strcmp':
        a, b = args[0].s, args[1].s
        if isinstance(a, str) and isinstance(b, str): return (a > b) - (a < b)
        return z3.If(zstr(a) == zstr(b), z3.IntVal(0), z3.IntVal(1))
    if name in ('strlen',):
        return slen(args[0].s)
    if name == 'exit' or name == 'abort':
        I.events.append((name, args)); from interp import PathEnd; raise ExitEx(args)
    raise Unsupported('external function %s' % name)

class ExitEx(Exception):
    def __init__(self, a): self.a = a

def stoi(I, s):
    if hasattr(s, 'stoi_'): return s.stoi_(I)
    if isinstance(s, str):
        m = re.match(r'\s*([+-]?\d+)', s)
        I.ob('stoi:%s' % I.where(), m is not None, 'safety')
        return int(m.group(1))
    f = z3.Function('stoi', z3.StringSort(), z3.IntSort())
    g = z3.Function('stoiOk', z3.StringSort(), z3.BoolSort())
    h = I.ghost.get('stoi_ok')
    I.ob('stoi:%s' % I.where(), h(s) if h else g(s), 'safety')
    return f(s)

def algorithm(I, name, args, n):
    b, e = args[0], args[1]
    if isinstance(b, IterV) and isinstance(e, IterV) and isinstance(b.i, int) and isinstance(e.i, int):
        c = b.c
        def pred(i):
            if name in ('find', 'count'): return I.truth(I.equal(I.read(c.e(i)), args[2])) if not isinstance(I.read(c.e(i)), StructV) else I.truth(elem_eq(I, I.read(c.e(i)), args[2]))
            return I.truth(I.call_func(args[2], [c.e(i)]))
        if name in ('any_of', 'all_of', 'none_of', 'find_if', 'find', 'find_if_not'):
            for i in range(b.i, e.i):
                t = I.branch(pred(i))
                if name == 'any_of' and t: return True
                if name == 'all_of' and not t: return False
                if name == 'none_of' and t: return False
                if name in ('find_if', 'find') and t: return IterV(c, i)
                if name == 'find_if_not' and not t: return IterV(c, i)
            return {'any_of': False, 'all_of': True, 'none_of': True}.get(name, e)
        if name in ('count', 'count_if'):
            return sum(1 for i in range(b.i, e.i) if I.branch(pred(i)))
        if name == 'for_each':
            for i in range(b.i, e.i): I.call_func(args[2], [c.e(i)])
            return args[2]
    raise Unsupported('algorithm std::%s on symbolic range' % name)

# ------------------------------------------------------------- new/delete
def new_expr(I, n):
    t = strip_type(ctype(n))
    assert t.endswith('*')
    et = t[:-1].strip()
    if n.get('isArray'):
        sz = None
        for c in n.get('inner', []):
            if c['kind'] not in ('Null',):
                sz = toint(I.rv(c)); break
        I.ob('new-size:%s' % I.where(), (sz >= 0) if isz(sz) else sz >= 0, 'safety', n.get('line'))
        nm = 'heap!%d' % I.newid()
        lv = I.alloc(SeqV(et, sz, lambda j: I.fresh(et, nm + '[]', (j,)), kind='array'))
        I.ghost.setdefault('heap', {})[lv.loc] = 'array'
        return IterV(lv, 0)
    inner = [c for c in n.get('inner', []) if c['kind'] not in ('Null',)]
    if inner: v = I.rv(inner[-1])
    else: v = I.default(et)
    lv = I.alloc(v)
    I.ghost.setdefault('heap', {})[lv.loc] = 'obj'
    return PtrV(lv)

def typed(I, m, t):
    """memory from malloc/realloc seen as an object or an array"""
    t = strip_type(t)
    if not t.endswith('*'): raise Unsupported('memory as %s' % t)
    et = strip_type(t[:-1])
    et = I.P.typedefs.get(et, et)
    if et == 'void': return m
    if et in I.P.records:
        I.ob('block-size:%s' % I.where(), pand([le(sizeof(I, et), m.n)]), 'safety')
        lv = I.alloc(I.fresh(et, 'heap!%d' % I.newid()))
        I.ghost.setdefault('heap', {})[lv.loc] = 'malloc'
        return PtrV(lv, m.nul)
    sz = sizeof(I, et)
    n = m.n if sz == 1 else (m.n // sz if isinstance(m.n, int) else m.n / sz)
    nm = 'heap!%d' % I.newid()
    new = lambda j: I.fresh(et, nm + '[]', (j,))
    o = m.old
    f = new if o is None else (lambda j: lite(lt(j, o.n), lambda: o.at(j), lambda: new(j)))
    lv = I.alloc(SeqV(et, n, f, kind='array'))
    I.ghost.setdefault('heap', {})[lv.loc] = 'malloc'
    return IterV(lv, 0, nul=m.nul)

def delete_expr(I, n):
    v = I.rv(n['inner'][0])
    if isinstance(v, IterV):
        I.ob('delete:%s' % I.where(), por([v.nul, pand([eqi(v.i, 0), I.ghost.get('heap', {}).get(v.c.loc) == 'array' and bool(n.get('isArray')) and not isinstance(I.read(v.c), FreedV)])]), 'safety', n.get('line'))
        I.write(v.c, FreedV())
    I.events.append(('delete', v))
    return None

# ------------------------------------------------------------- methods
def method(I, base, name, argn, n):
    argn = [a for a in argn if a['kind'] != 'CXXDefaultArgExpr']
    o = I.read(base) if isinstance(base, LV) else base
    if not isinstance(base, LV): base = I.alloc(o)
    if name == 'operator bool' and isinstance(o, bool): return o
    if hasattr(o, 'method_'): return o.method_(I, base, name, [I.ev(a) for a in argn], n)
    if isinstance(o, SeqV): return seq_method(I, base, o, name, argn, n)
    if is_str(o): return str_method(I, base, o, name, argn, n)
    if isinstance(o, (SetV, MapV)): return set_method(I, base, o, name, argn, n)
    if isinstance(o, PtrV):
        if name == 'get': return o
        if name == 'reset':
            v = I.rv(argn[0]) if argn else PtrV(None)
            I.write(base, v); return None
        if name == 'operator bool' or name.startswith('operator'): return pnot(o.nul)
        if name == 'release':
            I.write(base, PtrV(None)); return o
    if isinstance(o, OpaqueV):
        h = I.hooks.get(o.t + '.' + name)
        if h: return h(I, base, [I.ev(a) for a in argn], n)
        if o.t == 'wstring_convert':
            if name == 'to_bytes':
                return to_bytes(I, I.rv(argn[0]))
            if name == 'from_bytes':
                return from_bytes(I, I.rv(argn[0]))
        if o.t == 'stream' and name == 'str': return o.d['buf']
    if isinstance(o, StructV) and o.t == 'pair' and name == 'operator=':
        v = I.rv(argn[0]); I.write(base, v); return base
    raise Unsupported('method %s on %s' % (name, o.t if isinstance(o, (OpaqueV, StructV)) else type(o).__name__))

def int_str(a):
    if isinstance(a, int): return str(a)
    return z3.If(a >= 0, z3.IntToStr(a), z3.Concat(z3.StringVal('-'), z3.IntToStr(-a)))
def to_bytes(I, s):
    if isinstance(s, SeqV):
        if s.conc is not None and all(isinstance(x, int) for x in s.conc):
            b = b''.join(bytes((x & 255, x >> 8)) for x in s.conc)
            return b.decode('utf-16-le').encode('utf-8').decode('latin-1')
        b, st = seqkey(s)
        r = U8(zi(b), zi(st), zi(s.n))
        I.fact((z3.Length(r) == 0) == (zi(s.n) == 0))
        return r
    raise Unsupported('to_bytes')
def from_bytes(I, s):
    if isinstance(s, CStrV): s = s.s
    if isinstance(s, str):
        b = s.encode('latin-1').decode('utf-8').encode('utf-16-le')
        cs = [b[i] | b[i+1] << 8 for i in range(0, len(b), 2)]
        return SeqV('char16_t', len(cs), conc=cs, kind='u16')
    h = I.hooks.get('from_bytes')
    if h: return h(I, s)
    raise Unsupported('from_bytes')

def bounds(I, c, i, n, what):
    I.ob('%s:%s' % (what, I.where()), pand([le(0, i), lt(i, c.n)]), 'safety', n.get('line') if n else None)
    if isinstance(c.n, int) and c.n == 0:
        from interp import PathEnd
        raise PathEnd()

def seq_method(I, base, c, name, argn, n):
    if name in ('begin', 'cbegin'): return IterV(base, 0)
    if name in ('end', 'cend'): return IterV(base, c.n)
    if name in ('size', 'length'): return c.n
    if name == 'empty': return eqi(c.n, 0)
    if name in ('at', 'operator[]'):
        i = toint(I.rv(argn[0]))
        if c.kind == 'u16' and name != 'at' :
            I.ob('index-range:%s' % I.where(), pand([le(0, i), le(i, c.n)]), 'safety', n.get('line'))
        else: bounds(I, c, i, n, 'at-range')
        return base.e(i)
    if name in ('front', 'back'):
        bounds(I, c, 0, n, name + '-nonempty')
        return base.e(0 if name == 'front' else sub(c.n, 1))
    if name in ('push_back', 'emplace_back'):
        v = mk_elem(I, c.et, argn)
        I.write(base, c.push(v)); return None
    if name in ('push_front', 'emplace_front'):
        v = mk_elem(I, c.et, argn)
        I.write(base, c.insert(0, v))
        I.iters_of(base, lambda it: IterV(it.c, add(it.i, 1))); return None
    if name == 'pop_front':
        bounds(I, c, 0, n, 'pop-nonempty')
        I.write(base, c.erase(0, 1))
        I.iters_of(base, lambda it: IterV(it.c, sub(it.i, 1))); return None
    if name == 'pop_back':
        bounds(I, c, 0, n, 'pop-nonempty')
        I.write(base, c.erase(sub(c.n, 1), c.n)); return None
    if name == 'clear':
        I.write(base, SeqV(c.et, 0, conc=[], kind=c.kind)); return None
    if name in ('reserve', 'shrink_to_fit'):
        for a in argn: I.rv(a)
        return None
    if c.kind in ('multimap', 'map', 'multiset'): 
        r = mm_method(I, base, c, name, argn, n)
        if r is not NotImplemented: return r
    if name == 'insert':
        it = I.rv(argn[0])
        if isinstance(it, IterV) and len(argn) == 2:
            v = I.rv(argn[1])
            return seq_insert(I, base, c, it.i, v)
        if isinstance(it, IterV) and len(argn) == 3:
            a, b = I.rv(argn[1]), I.rv(argn[2])
            o = I.read(a.c).slice(a.i, sub(b.i, a.i)) if not (eqi(a.i, 0) is True and eqi(b.i, I.read(a.c).n) is True) else I.read(a.c)
            I.write(base, c.insert_seq(it.i, o))
            k = it.i
            I.iters_of(base, lambda q: IterV(q.c, ite(le(k, q.i), add(q.i, o.n), q.i)))
            return IterV(base, k)
    if name == 'emplace':
        it = I.rv(argn[0])
        return seq_insert(I, base, c, it.i, mk_elem(I, c.et, argn[1:]))
    if name == 'erase':
        it = I.rv(argn[0])
        if isinstance(it, IterV):
            if len(argn) == 1: b = add(it.i, 1); bounds(I, c, it.i, n, 'erase-valid')
            else: b = I.rv(argn[1]).i
            return seq_erase(I, base, c, it.i, b)
    if name == 'substr':
        a = I.rv(argn[0]) if argn else 0
        return seq_substr(I, c, a, I.rv(argn[1]) if len(argn) > 1 else None)
    if name == 'splice' and len(argn) == 2:
        it = I.rv(argn[0]); olv = I.ev(argn[1]); o = I.read(olv)
        I.write(base, c.insert_seq(it.i, o))
        I.write(olv, SeqV(o.et, 0, conc=[], kind=o.kind)); return None
    if name == 'swap':
        olv = I.ev(argn[0]); o = I.read(olv)
        I.write(olv, c); I.write(base, o); return None
    if name == 'assign' and len(argn) == 2:
        a, b = I.rv(argn[0]), I.rv(argn[1])
        o = I.read(a.c).slice(a.i, sub(b.i, a.i))
        I.write(base, SeqV(c.et, o.n, o.atf, o.conc, o.key, c.kind)); return None
    if name == 'append' or name == 'operator+=':
        v = I.rv(argn[0])
        if isinstance(v, SeqV): I.write(base, c.insert_seq(c.n, v))
        elif isinstance(v, CStrV): I.write(base, c.insert_seq(c.n, v.s))
        else: I.write(base, c.push(v))
        return base
    if name == 'compare':
        o = I.rv(argn[0])
        ra, rb = u16_facts(I, c, o)
        return z3.If(ra < rb, z3.IntVal(-1), z3.If(ra > rb, z3.IntVal(1), z3.IntVal(0)))
    if name in ('find',) and c.kind == 'u16':
        ch = I.rv(argn[0])
        return u16_find(I, c, ch, I.rv(argn[1]) if len(argn) > 1 else 0)
    if name in ('data', 'c_str') and c.kind in ('vector', 'wide'): return IterV(base, 0)
    if name == 'resize':
        k = I.rv(argn[0]); d = I.rv(argn[1]) if len(argn) > 1 else I.zero(c.et)
        k0 = c.n
        if isinstance(k, int) and c.conc is not None: I.write(base, SeqV(c.et, k, conc=(c.conc + [d] * k)[:k], kind=c.kind))
        elif c.conc == []: I.write(base, SeqV(c.et, k, lambda j: d, kind=c.kind))
        else: I.write(base, SeqV(c.et, k, lambda j: ite(lt(j, k0), c.at(j), d), kind=c.kind))
        return None
    raise Unsupported('container method ' + name)

def u16_find(I, c, ch, start):
    k = z3.Int('find!%d' % I.newid())
    q = z3.Int('q!f')
    NP = (1 << 64) - 1
    I.fact(z3.Or(z3.And(k == NP, z3.ForAll([q], z3.Implies(z3.And(q >= start, q < c.n), c.at(q) != ch))),
                 z3.And(k >= start, k < c.n, c.at(k) == ch, z3.ForAll([q], z3.Implies(z3.And(q >= start, q < k), c.at(q) != ch)))))
    return k

def mk_elem(I, et, argn):
    if len(argn) == 1:
        v = I.rv(argn[0])
        t = strip_type(et)
        if isinstance(v, StructV) or t not in I.P.records or (I.abstracted(t) and isz(v)): return conv_to(v, et)
        vals = [v]
    else: vals = None
    t = strip_type(et)
    n = norm(et)
    if n.startswith('pair<'):
        a = targs(n)
        return StructV('pair', {'first': conv_to(I.rv(argn[0]), a[0]), 'second': conv_to(I.rv(argn[1]), a[1])})
    rec = I.P.records.get(t)
    if rec:
        # emplace: pick constructor by arity
        cs = [(c, tu) for c, tu in rec.ctors
              if sum(x['kind'] == 'ParmVarDecl' for x in c.get('inner', [])) >= len(argn)
              and all(x.get('inner') for x in [y for y in c['inner'] if y['kind'] == 'ParmVarDecl'][len(argn):])]
        ats = [strip_type(ctype(a)) for a in argn]
        def score(c):
            ps = [strip_type(ctype(x)) for x in c[0]['inner'] if x['kind'] == 'ParmVarDecl']
            return sum(p == a for p, a in zip(ps, ats)) - 0.01 * len(ps)
        cs.sort(key=score, reverse=True)
        if cs:
            d = I.P.definition(cs[0][1], cs[0][0])
            if d:
                lv = I.alloc(I.default(t))
                ps = [x for x in cs[0][0]['inner'] if x['kind'] == 'ParmVarDecl']
                nodes = list(argn) + [{'kind': 'CXXDefaultArgExpr'}] * (len(ps) - len(argn))
                I.call(d[0], d[1], lv, I.evargs(nodes, d[0], cs[0][0]))
                return I.read(lv)
    raise Unsupported('emplace of ' + et)

def seq_insert(I, base, c, k, v):
    I.ob('insert-pos:%s' % I.where(), pand([le(0, k), le(k, c.n)]), 'safety')
    I.write(base, c.insert(k, v))
    I.iters_of(base, lambda q: IterV(q.c, ite(le(k, q.i), add(q.i, 1), q.i)))
    return IterV(base, k)
def seq_erase(I, base, c, a, b):
    I.write(base, c.erase(a, b))
    d = sub(b, a)
    I.iters_of(base, lambda q: IterV(q.c, ite(le(b, q.i), sub(q.i, d), q.i)))
    return IterV(base, a)

def mm_range(I, c, k):
    """equal_range on a key-sorted sequence"""
    if c.conc is not None and all(isinstance(x.f['first'], int) for x in c.conc) and isinstance(k, int):
        ks = [x.f['first'] for x in c.conc]
        lo = next((i for i, x in enumerate(ks) if x >= k), len(ks))
        hi = next((i for i, x in enumerate(ks) if x > k), len(ks))
        return lo, hi
    i = I.newid()
    lo, hi = z3.Int('lo!%d' % i), z3.Int('hi!%d' % i)
    q = z3.Int('q!m')
    key = lambda j: c.at(j).f['first']
    I.fact(z3.And(lo >= 0, lo <= hi, hi <= c.n))
    if c.conc is not None:
        for j, x in enumerate(c.conc):
            kk = x.f['first']
            I.fact(pand([z3.Implies(z3.And(lo <= j, j < hi), zb(eqi(kk, k))), z3.Implies(j < lo, kk < k), z3.Implies(hi <= j, kk > k)]))
    else:
        I.fact(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < c.n), z3.And(
            (z3.And(lo <= q, q < hi)) == (zi(key(q)) == k), (q < lo) == (key(q) < k), (q >= hi) == (key(q) > k)))))
    return lo, hi

def mm_method(I, base, c, name, argn, n):
    if name == 'equal_range':
        lo, hi = mm_range(I, c, toint(I.rv(argn[0])))
        return StructV('pair', {'first': IterV(base, lo), 'second': IterV(base, hi)})
    if name in ('lower_bound', 'upper_bound'):
        lo, hi = mm_range(I, c, toint(I.rv(argn[0])))
        return IterV(base, lo if name == 'lower_bound' else hi)
    if name == 'count':
        lo, hi = mm_range(I, c, toint(I.rv(argn[0])))
        return sub(hi, lo)
    if name == 'find':
        lo, hi = mm_range(I, c, toint(I.rv(argn[0])))
        return IterV(base, ite(eqi(lo, hi), c.n, lo))
    if name in ('insert', 'emplace') and c.kind == 'multimap':
        v = mk_elem(I, c.et, argn)
        lo, hi = mm_range(I, c, v.f['first'])
        I.write(base, c.insert(hi, v))
        k = hi
        I.iters_of(base, lambda q: IterV(q.c, ite(le(k, q.i), add(q.i, 1), q.i)))
        return IterV(base, hi)
    if name == 'erase' and len(argn) == 1:
        v = I.rv(argn[0])
        if not isinstance(v, IterV):
            lo, hi = mm_range(I, c, toint(v))
            seq_erase(I, base, c, lo, hi); return sub(hi, lo)
        bounds(I, c, v.i, n, 'erase-valid')
        return seq_erase(I, base, c, v.i, add(v.i, 1))
    return NotImplemented

def set_method(I, base, o, name, argn, n):
    def key():
        k = I.rv(argn[0])
        return k.s if isinstance(k, CStrV) else k
    if name == 'at' and isinstance(o, MapV):
        k = key()
        I.ob('map-at:%s' % I.where(), o.has(k), 'safety', n.get('line'))
        v = o.at(k)
        if v is None:
            from interp import PathEnd
            raise PathEnd()
        return I.alloc(v)
    if name == 'find':
        k = key()
        return MapIterV(o, k, pnot(o.has(k)))
    if name in ('end', 'cend'): return MapIterV(o, None, True)
    if name in ('begin', 'cbegin'): return IterV(base, 0)
    if name == 'count': return toint(o.has(key()))
    if name == 'contains': return o.has(key())
    if name in ('size',):
        if getattr(o, 'dup', False): raise Unsupported('size of a set')
        return len(o.items)
    if name == 'empty': return len(o.items) == 0
    if name in ('insert', 'emplace') and isinstance(o, SetV) and len(argn) == 1:
        k = key()
        if isinstance(k, SeqV) and k.conc is not None: ks = k.conc
        elif isinstance(k, (int, str)) or isz(k): ks = [k]
        else: raise Unsupported('set insertion')
        r = SetV(list(o.items)); r.dup = getattr(o, 'dup', False)
        for k in ks:
            h = r.has(k)
            if h is True: continue
            if h is not False: r.dup = True
            r.items.append(k)
        I.write(base, r)
        return OpaqueV('inserted')
    if name == 'clear' and isinstance(o, SetV): I.write(base, SetV([])); return None
    raise Unsupported('set/map method ' + name)

def str_method(I, base, s, name, argn, n):
    if name in ('size', 'length'): return slen(s)
    if name == 'empty': return (len(s) == 0) if isinstance(s, str) else (z3.Length(s) == 0)
    if name in ('at', 'operator[]', 'front', 'back'):
        if name == 'front': i = 0
        elif name == 'back': i = sub(zi(slen(s)) if isz(s) else len(s), 1)
        else: i = toint(I.rv(argn[0]))
        ln = slen(s)
        hi = pand([le(0, i), lt(i, ln)]) if name != 'operator[]' else pand([le(0, i), le(i, ln)])
        I.ob('str-index:%s' % I.where(), hi, 'safety', n.get('line'))
        return StrRef(I, base, i)
    if name == 'c_str' or name == 'data': return CStrV(s)
    if name in ('push_back',):
        I.write(base, scat(s, chr_str(I.rv(argn[0])))); return None
    if name == 'append':
        v = I.rv(argn[0])
        if len(argn) == 2 and isinstance(v, int):
            v2 = chr_str(I.rv(argn[1])) * v
            I.write(base, scat(s, v2)); return base
        I.write(base, scat(s, tostr(v))); return base
    if name == 'clear': I.write(base, ''); return None
    if name in ('reserve',): return None
    if name == 'pop_back':
        if isinstance(s, str): I.write(base, s[:-1]); return None
        I.write(base, z3.SubString(s, z3.IntVal(0), z3.Length(s) - 1)); return None
    if name == 'substr':
        a = I.rv(argn[0]) if argn else 0
        return substr(I, s, a, I.rv(argn[1]) if len(argn) > 1 else None)
    if name == 'find':
        x = tostr(I.rv(argn[0])); st = I.rv(argn[1]) if len(argn) > 1 else 0
        if isinstance(s, str) and isinstance(x, str) and isinstance(st, int):
            r = s.find(x, st); return r if r >= 0 else (1 << 64) - 1
        r = z3.IndexOf(zstr(s), zstr(x), zi(st))
        return z3.If(r < 0, z3.IntVal((1 << 64) - 1), r)
    if name in ('begin', 'cbegin'): return IterV(base, 0)
    if name in ('end', 'cend'): return IterV(base, slen(s))
    if name == 'compare':
        o = tostr(I.rv(argn[0]))
        if isinstance(s, str) and isinstance(o, str): return (s > o) - (s < o)
        return z3.If(zstr(s) == zstr(o), z3.IntVal(0), z3.If(str_lt(s, o), z3.IntVal(-1), z3.IntVal(1)))
    raise Unsupported('string method ' + name)

def StrRef(I, base, i):
    """lvalue for a character of a std::string"""
    s = I.read(base)
    lv = CharLV(I.alloc(str_at(I, s, i)).loc, base, i)
    return lv
class CharLV(LV):
    __slots__ = ('sb', 'si')
    def __init__(self, loc, sb, si):
        LV.__init__(self, loc); self.sb = sb; self.si = si

# ------------------------------------------------------------- operators
def operator(I, op, argn, n):
    if op == '=':
        v = I.rv(argn[1]); lv = I.ev(argn[0])
        o = I.read(lv) if not isinstance(lv, CharLV) else None
        if is_str(o): v = tostr(v)
        if isinstance(o, SeqV) and isinstance(v, CStrV): v = v.s
        if isinstance(o, SeqV) and isinstance(v, SeqV) and v.kind != o.kind: v = SeqV(o.et, v.n, v.atf, v.conc, v.key, o.kind)
        I.write(lv, v); return lv
    if op == '<<' or op == '>>':
        return stream_op(I, op, argn, n)
    if op in ('++', '--'):
        lv = I.ev(argn[0]); v = I.read(lv)
        if not isinstance(v, IterV): raise Unsupported('++ on %s' % type(v).__name__)
        c = I.read(v.c)
        if op == '++':
            if isinstance(c, SeqV): I.ob('iter-inc:%s' % I.where(), lt(v.i, c.n), 'safety', n.get('line'))
            elif hasattr(c, 'limit'): I.ob('iter-inc:%s' % I.where(), lt(v.i, c.limit(v)), 'safety', n.get('line'))
            nv = v.at(add(v.i, 1))
        else:
            I.ob('iter-dec:%s' % I.where(), lt(0, v.i), 'safety', n.get('line'))
            nv = v.at(sub(v.i, 1))
        I.write(lv, nv)
        return v if len(argn) == 2 else lv
    if op in ('*', '->') and len(argn) == 1:
        v = I.rv(argn[0])
        if isinstance(v, IterV):
            return I.iter_lv(v, n) if op == '*' else PtrV(I.iter_lv(v, n))
        if isinstance(v, PtrV):
            if op == '->': return v
            I.ob('null-deref:%s' % I.where(), pnot(v.nul), 'safety', n.get('line'))
            return v.lv
        if isinstance(v, MapIterV):
            if op == '*':
                I.ob('end-deref:%s' % I.where(), pnot(v.isend), 'safety', n.get('line'))
                if isinstance(v.m, MapV): return StructV('pair', {'first': v.key, 'second': v.m.at(v.key)})
                return v.key
            return v
        if isinstance(v, OpaqueV) or hasattr(v, 'owner_'): return v
        raise Unsupported('%s on %s' % (op, type(v).__name__))
    if op == '[]':
        b = I.ev(argn[0])
        if not isinstance(b, LV): b = I.alloc(b)
        o = I.read(b)
        if hasattr(o, 'method_'): return o.method_(I, b, 'operator[]', [I.ev(a) for a in argn[1:]], n)
        if isinstance(o, SeqV): return seq_method(I, b, o, 'operator[]', argn[1:], n)
        if is_str(o): return str_method(I, b, o, 'operator[]', argn[1:], n)
        if isinstance(o, MapV):
            k = I.rv(argn[1])
            if o.has(k) is True: return I.alloc(o.at(k))
        if isinstance(o, IterV): return I.subscript(o, I.rv(argn[1]), n)
        raise Unsupported('[] on %s' % type(o).__name__)
    if op == '+=':
        lv = I.ev(argn[0]); v = I.rv(argn[1]); o = I.read(lv)
        if is_str(o):
            I.write(lv, scat(o, tostr(v))); return lv
        if isinstance(o, SeqV):
            if isinstance(v, SeqV): I.write(lv, c_append(o, v))
            elif isinstance(v, CStrV): I.write(lv, c_append(o, v.s))
            else: I.write(lv, o.push(v))
            return lv
        if isinstance(o, IterV): I.write(lv, o.at(add(o.i, v))); return lv
    if op == '()':
        f = I.rv(argn[0])
        if isinstance(f, FuncV): return I.call_func(f, [I.ev(a) for a in argn[1:]])
    if op == '!': return pnot(I.truth(I.rv(argn[0])))
    if len(argn) == 2:
        x, y = I.rv(argn[0]), I.rv(argn[1])
        if op == '+':
            if is_str(x) or is_str(y): return scat(tostr(x), tostr(y))
            if isinstance(x, SeqV) or isinstance(y, SeqV):
                x = x.s if isinstance(x, CStrV) else x
                y = y.s if isinstance(y, CStrV) else y
                if isinstance(x, SeqV) and isinstance(y, SeqV): return c_append(x, y)
                if isinstance(x, SeqV): return x.push(y)
        if isinstance(x, IterV) or isinstance(y, IterV):
            if op in ('==', '!='):
                r = I.equal(x, y); return r if op == '==' else pnot(r)
            return I.iter_arith(op, x, y)
        if op in ('==', '!='):
            if is_str(x) or is_str(y): r = eqv(tostr(x), tostr(y))
            elif isinstance(x, SeqV) and isinstance(y, CStrV): r = seq_eq(I, x, y.s)
            else: r = I.equal(x, y)
            return r if op == '==' else pnot(r)
        if op in ('<', '>', '<=', '>='):
            if is_str(x):
                y = tostr(y)
                return {'<': lambda: str_lt(x, y), '>': lambda: str_lt(y, x), '<=': lambda: pnot(str_lt(y, x)), '>=': lambda: pnot(str_lt(x, y))}[op]()
            if isinstance(x, SeqV) and x.kind == 'u16':
                if x.conc is not None and y.conc is not None:
                    return {'<': x.conc < y.conc, '>': x.conc > y.conc, '<=': x.conc <= y.conc, '>=': x.conc >= y.conc}[op]
                ra, rb = u16_facts(I, x, y)
                return {'<': ra < rb, '>': ra > rb, '<=': ra <= rb, '>=': ra >= rb}[op]
            return I.binop(op, x, y, 'int', n)
    raise Unsupported('operator %s' % op)

def c_append(a, b):
    if a.conc is not None and b.conc is not None:
        return a.clone(conc=a.conc + b.conc, n=len(a.conc) + len(b.conc))
    return a.insert_seq(a.n, b)

def stream_op(I, op, argn, n):
    lv = I.ev(argn[0])
    o = I.read(lv) if isinstance(lv, LV) else lv
    if isinstance(o, OpaqueV) and op == '<<':
        h = I.hooks.get(o.t + '.<<')
        if h: return h(I, lv, argn, n)
        d = argn[1]
        e = d
        from interp import TRANSPARENT
        while e['kind'] in TRANSPARENT or e['kind'] == 'ImplicitCastExpr': e = e['inner'][0]
        if e['kind'] == 'DeclRefExpr' and e['referencedDecl'].get('name') in ('endl', 'flush'):
            v = '\n' if e['referencedDecl']['name'] == 'endl' else ''
        else:
            v = I.rv(d)
            t = strip_type(ctype(d))
            if isinstance(v, (int,)) or (isz(v) and z3.is_int(v)):
                v = chr_str(v) if t == 'char' else (str(v) if isinstance(v, int) else z3.IntToStr(v))
            elif isinstance(v, IterV) and 'string_of' in I.hooks: v = I.hooks['string_of'](I, v)
            else: v = tostr(v)
        I.write(lv, OpaqueV(o.t, dict(o.d, buf=scat(o.d['buf'], v))))
        return lv
    h = I.hooks.get((o.t if isinstance(o, OpaqueV) else '?') + '.>>')
    if h: return h(I, lv, argn, n)
    raise Unsupported('stream operator')
