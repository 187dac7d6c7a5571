# Symbolic execution of Python sources: the source is parsed, every operation that depends on a value is routed through
# Rt, and executed with symbolic characters, words and numbers, which are decided by z3. A symbolic string is a str in
# which every symbolic part is one code point of a private plane, so that operations that only move text need no model.
import ast, builtins, copy, sys, types, operator, time
import z3
BASE = 0xF0000
class Unsupported(BaseException):
    def __init__(self, m):
        super().__init__(m)
        if C is not None: C.unsup = m
class Stop(BaseException): pass       # path abandoned (infeasible)
class Violation(BaseException):
    def __init__(self, msg, model): self.msg = msg; self.model = model
C = None                              # the current path
class Tok:
    def __init__(self, kind, expr, dom=None, obj=None): self.kind = kind; self.expr = expr; self.dom = dom; self.obj = obj
class Path:
    def __init__(self, prefix, stats, deadline):
        self.prefix = prefix; self.dec = []; self.alts = []; self.solver = z3.Solver(); self.toks = []; self.sub = {}; self.n = 0; self.stats = stats; self.inputs = []; self.reached = set(); self.deadline = deadline; self.unsup = None; self.fns = set(); self.ntok = {}
    def check(self, *a):
        t = time.time(); self.stats['queries'] += 1; r = self.solver.check(*a); self.stats['solver'] += time.time() - t
        if r == z3.unknown: raise Unsupported('solver gave up')
        if time.time() > self.deadline: raise Unsupported('time budget exceeded')
        return r == z3.sat
    def pick(self, n, name):
        i = len(self.dec)
        if i < len(self.prefix): d = self.prefix[i]
        else:
            d = 0
            for k in range(n - 1, 0, -1): self.alts.append(self.dec + [k])
        self.dec.append(d); self.inputs.append((name, d)); return d
    def branch(self, c):
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        i = len(self.dec)
        if i < len(self.prefix): d = self.prefix[i]
        else:
            self.stats['branches'] += 1
            if not self.check(c): d = 0
            elif not self.check(z3.Not(c)): d = 1
            else: d = 1; self.alts.append(self.dec + [0])
        self.dec.append(d); self.solver.add(c if d else z3.Not(c)); return bool(d)
    def assume(self, c):
        if isinstance(c, bool):
            if not c: raise Stop()
            return
        self.solver.add(c)
    def new(self, kind, expr, dom=None, obj=None):
        assert len(self.toks) < 0xFF00; self.toks.append(Tok(kind, expr, dom, obj)); return chr(BASE + len(self.toks) - 1)
    def var(self, name, bits=None):
        self.n += 1; return z3.BitVec(f'{name}!{self.n}', bits) if bits else z3.Int(f'{name}!{self.n}')
    # inputs
    def char(self, name, dom):
        v = self.var(name); self.solver.add(z3.Or([v == ord(c) for c in dom])); t = self.new('c', v, dom); self.inputs.append((name, v)); return t
    def word(self, name, dom):
        if len(dom) == 1: return dom[0]
        v = self.var(name); self.solver.add(v >= 0, v < len(dom)); t = self.new('e', v, list(dom)); self.inputs.append((name, v)); return t
    def num(self, name, *ranges):
        v = self.var(name, 64); self.solver.add(z3.Or([z3.And(v >= a, v <= b) for a, b in ranges])); self.inputs.append((name, v)); return SymInt(v)
    def flag(self, name):
        self.n += 1; v = z3.Bool(f'{name}!{self.n}'); self.inputs.append((name, v)); return SymBool(v)
    def reach(self, l): self.reached.add(l)
    def claim(self, c, msg):
        self.stats['asserts'] += 1
        if isinstance(c, SymBool): c = c.e
        if isinstance(c, bool):
            if c: return
            c = z3.BoolVal(False)
        if self.check(z3.Not(c)): raise Violation(msg, self.solver.model())
        self.solver.add(c)
def tok(ch): return C.toks[ord(ch) - BASE]
def issym(s): return isinstance(s, str) and any(ord(c) >= BASE for c in s)
def norm(s):
    if C.sub and issym(s): s = ''.join(C.sub.get(c, c) for c in s)
    return s
def tokeq(c, v):   # token c has the text v
    t = tok(c)
    if t.kind == 'c': return z3.BoolVal(False) if len(v) != 1 or v not in t.dom else t.expr == ord(v)
    if t.kind == 'e': return t.expr == t.dom.index(v) if v in t.dom else z3.BoolVal(False)
    if t.kind == 'n':
        try: n = int(v)
        except ValueError: return z3.BoolVal(False)
        return t.expr == n if str(n) == v else z3.BoolVal(False)
    raise Unsupported('text of an object is examined')
def tokval(c, model):
    t = tok(c)
    if t.kind == 'j': return c
    v = model.eval(t.expr, model_completion=True)
    return chr(v.as_long()) if t.kind == 'c' else t.dom[v.as_long()] if t.kind == 'e' else str(v.as_signed_long())
def conctok(c):
    if c in C.sub: return C.sub[c]
    for _ in range(300):
        assert C.check(); i = len(C.dec)
        # the value tried must be the same when the path is executed again
        key = ('conc', len(C.dec)); v = VALS.get((tuple(C.dec), c))
        if v is None: v = tokval(c, C.solver.model()); VALS[(tuple(C.dec), c)] = v
        if C.branch(tokeq(c, v)): C.sub[c] = v; return v
    raise Unsupported('too many values')
VALS = {}
def conc(s, kinds='cen'): 
    s = norm(s)
    return ''.join(conctok(c) if ord(c) >= BASE and tok(c).kind in kinds else c for c in s) if issym(s) else s
def deep(x):
    if isinstance(x, str): return conc(x)
    if isinstance(x, SymInt): return int(x)
    if isinstance(x, SymBool): return bool(x)
    if type(x) in (list, tuple, set, frozenset): return type(x)(deep(y) for y in x)
    if type(x) is dict: return {deep(k): deep(v) for k, v in x.items()}
    return x
def anysym(x, d=0):
    if isinstance(x, str): return issym(x)
    if isinstance(x, (SymInt, SymBool)): return True
    if type(x) in (list, tuple, set, frozenset): return d < 6 and any(anysym(y, d + 1) for y in x)
    if type(x) is dict: return d < 6 and any(anysym(k, d + 1) or anysym(v, d + 1) for k, v in x.items())
    return False
def And(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a): return False
    return z3.And(a) if a else True
def seq(a, b):   # equality of two texts
    a = norm(a); b = norm(b)
    if a == b: return True
    if not issym(a) and not issym(b): return False
    for x, y in ((a, b), (b, a)):
        if len(x) == 1 and ord(x) >= BASE and tok(x).kind == 'e':
            if not issym(y): return tokeq(x, y)
            if len(y) == 1 and tok(y).kind == 'e':
                t, u = tok(x), tok(y); return z3.Or([z3.And(t.expr == i, u.expr == u.dom.index(v)) for i, v in enumerate(t.dom) if v in u.dom] + [z3.BoolVal(False)])
    a = conc(a, 'e'); b = conc(b, 'e')
    i = j = 0; r = []
    while i < len(a) and j < len(b):
        x, y = a[i], b[j]
        if x == y: i += 1; j += 1; continue
        kx = tok(x).kind if ord(x) >= BASE else None; ky = tok(y).kind if ord(y) >= BASE else None
        if kx == 'j' or ky == 'j': raise Unsupported('text of an object is compared')
        if kx == 'n' and ky == 'n': r.append(tok(x).expr == tok(y).expr); i += 1; j += 1; continue
        if kx == 'n' or ky == 'n':
            o = b[j:] if kx == 'n' else a[i:]
            if ord(o[0]) < BASE and not (o[0].isdigit() or o[0] == '-'): return False
            k = 1 if o[0] == '-' else 0
            while k < len(o) and o[k].isdigit(): k += 1
            if k < len(o) and ord(o[k]) >= BASE: return seq(conc(a, 'n'), conc(b, 'n'))
            r.append(tokeq(x if kx == 'n' else y, o[:k]))
            if kx == 'n': i += 1; j += k
            else: j += 1; i += k
            continue
        if kx is None and ky is None: return False
        if kx and ky: r.append(tok(x).expr == tok(y).expr)
        else: r.append(tokeq(x if kx else y, y if kx else x))
        i += 1; j += 1
    if i < len(a) or j < len(b): return False
    return And(*r)
def eqv(a, b):   # bool or z3 expression
    if isinstance(a, str) and isinstance(b, str): return seq(a, b)
    if isinstance(a, (SymInt, SymBool)) or isinstance(b, (SymInt, SymBool)):
        r = (a == b) if isinstance(a, (SymInt, SymBool)) else (b == a)
        return r.e if isinstance(r, SymBool) else bool(r)
    if type(a) in (list, tuple) and type(b) is type(a): return False if len(a) != len(b) else And(*[eqv(x, y) for x, y in zip(a, b)])
    if type(a) is dict and type(b) is dict and (anysym(a) or anysym(b)):
        if len(a) != len(b): return False
        r = []
        for k, v in a.items():
            k2 = canon(b, k)
            if k2 not in b: return False
            r.append(eqv(v, b[k2]))
        return And(*r)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and (anysym(a) or anysym(b)): return all(canon(b, x) in b for x in a) and all(canon(a, x) in a for x in b)
    return bool(a == b)
def same(a, b): return C.branch(eqv(a, b))
def canon(container, k):   # the key of the container that equals k, if any
    k = normdeep(k)
    if k in container and not anysym(k) : return k
    s = anysym(k)
    for x in list(container):
        if (s or anysym(x)) and same(x, k): return x
    return k
def normdeep(k): return norm(k) if isinstance(k, str) else tuple(normdeep(x) for x in k) if isinstance(k, tuple) else k
class SymInt:
    def __init__(self, e): self.e = e
    def __hash__(self): return hash(int(self))
    def __bool__(self): return C.branch(self.e != 0)
    def __index__(self): return int(conctok(numtok(self)))
    __int__ = __index__
    def __float__(self): return float(int(self))
    def __neg__(self): return SymInt(-self.e)
    def __invert__(self): return SymInt(~self.e)
    def __abs__(self): return -self if self < 0 else self
    def __repr__(self): return numtok(self)
    __str__ = __repr__
    def __format__(self, spec): return numtok(self) if spec in ('', 'd') else format(int(self), spec)
    def to_bytes(self, *a, **k): return int(self).to_bytes(*a, **k)
def _num(x): return x.e if isinstance(x, SymInt) else z3.If(x.e, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)) if isinstance(x, SymBool) else z3.BitVecVal(int(x), 64) if isinstance(x, int) else None
def _def(cls):
    for n, f in (('eq', lambda a, b: a == b), ('ne', lambda a, b: a != b), ('lt', lambda a, b: a < b), ('le', lambda a, b: a <= b), ('gt', lambda a, b: a > b), ('ge', lambda a, b: a >= b)):
        def g(self, o, f=f, n=n):
            v = _num(o)
            if v is None: return n == 'ne' if n in ('eq', 'ne') else NotImplemented
            return SymBool(f(_num(self), v))
        setattr(cls, f'__{n}__', g)
    for n, f in (('add', lambda a, b: a + b), ('sub', lambda a, b: a - b), ('mul', lambda a, b: a * b), ('and', lambda a, b: a & b), ('or', lambda a, b: a | b), ('xor', lambda a, b: a ^ b), ('rshift', lambda a, b: a >> b), ('lshift', lambda a, b: a << b)):
        def g(self, o, f=f, n=n):
            if n in ('and', 'or', 'xor') and isinstance(self, SymBool) and isinstance(o, (SymBool, bool)): return SymBool({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[n](self.e, o.e if isinstance(o, SymBool) else z3.BoolVal(o)))
            v = _num(o); return NotImplemented if v is None else SymInt(f(_num(self), v))
        def h(self, o, f=f): v = _num(o); return NotImplemented if v is None else SymInt(f(v, _num(self)))
        setattr(cls, f'__{n}__', g); setattr(cls, f'__r{n}__', h)
    for n in ('mod', 'floordiv', 'truediv', 'divmod', 'pow'):
        fn = getattr(operator, n, divmod)
        setattr(cls, f'__{n}__', lambda self, o, fn=fn: fn(int(self), int(o))); setattr(cls, f'__r{n}__', lambda self, o, fn=fn: fn(int(o), int(self)))
class SymBool:
    def __init__(self, e): self.e = e
    def __hash__(self): return hash(bool(self))
    def __bool__(self): return C.branch(self.e)
    def __index__(self): return int(bool(self))
    __int__ = __index__
    def __repr__(self): return repr(bool(self))
    __str__ = __repr__
_def(SymInt); _def(SymBool)
def numtok(x):
    k = x.e.get_id()
    if k not in C.ntok: C.ntok[k] = (C.new('n', x.e), x.e)
    return C.ntok[k][0]
def wrap(c): return c if isinstance(c, bool) else SymBool(c)
def texts(v):   # str(v)
    if isinstance(v, str): return v
    if isinstance(v, SymInt): return numtok(v)
    if anysym(v) or isinstance(v, SymBool): return str(deep(v))
    if isinstance(v, BaseException): return ', '.join(texts(a) for a in v.args) if len(v.args) < 2 else str(deep(v.args))
    return str(v)
def less(a, b):
    if isinstance(a, str) and isinstance(b, str) and (issym(a) or issym(b)):
        a = conc(a, 'en'); b = conc(b, 'en')
        for x, y in zip(a, b):
            if same(x, y): continue
            ex = tok(x).expr if ord(x) >= BASE else z3.IntVal(ord(x)); ey = tok(y).expr if ord(y) >= BASE else z3.IntVal(ord(y)); return C.branch(ex < ey)
        return len(a) < len(b)
    if type(a) in (list, tuple) and type(b) is type(a) and (anysym(a) or anysym(b)):
        for x, y in zip(a, b):
            if same(x, y): continue
            return less(x, y)
        return len(a) < len(b)
    return bool(a < b)
def sort(xs, key=None, reverse=False):
    ks = [(key(x) if key else x, x) for x in xs]; out = []
    if reverse: ks.reverse()
    for k in ks:
        i = len(out)
        while i > 0 and less(k[0], out[i - 1][0]): i -= 1
        out.insert(i, k)
    r = [x for _, x in out]
    if reverse: r.reverse()
    return r
WS = ' \t\n\r\x0b\x0c'
def inset(ch, chars):
    if ord(ch) < BASE: return ch in chars
    return C.branch(z3.Or([tokeq(ch, c) for c in chars if c in (tok(ch).dom or '')] + [z3.BoolVal(False)]))
class StrOps:
    def startswith(s, p, a=0, b=None):
        s = s[a:b]
        return any(StrOps.startswith(s, x) for x in p) if isinstance(p, tuple) else len(p) <= len(s) and same(s[:len(p)], p)
    def endswith(s, p, a=0, b=None):
        s = s[a:b]
        return any(StrOps.endswith(s, x) for x in p) if isinstance(p, tuple) else len(p) <= len(s) and same(s[len(s) - len(p):], p)
    def find(s, x, a=0, b=None):
        b = len(s) if b is None else min(b, len(s)) if b >= 0 else len(s) + b
        if a < 0: a += len(s)
        for i in range(a, b - len(x) + 1):
            if same(s[i:i + len(x)], x): return i
        return -1
    def rfind(s, x, a=0, b=None):
        b = len(s) if b is None else min(b, len(s)) if b >= 0 else len(s) + b
        for i in range(b - len(x), a - 1, -1):
            if same(s[i:i + len(x)], x): return i
        return -1
    def index(s, *a):
        r = StrOps.find(s, *a)
        if r < 0: raise ValueError('substring not found')
        return r
    def rindex(s, *a):
        r = StrOps.rfind(s, *a)
        if r < 0: raise ValueError('substring not found')
        return r
    def count(s, x): return len(StrOps.split(s, x)) - 1
    def split(s, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            i = 0
            while True:
                while i < len(s) and inset(s[i], WS): i += 1
                if i >= len(s): return out
                if maxsplit >= 0 and len(out) == maxsplit: out.append(StrOps.rstrip(s[i:])); return out
                j = i
                while j < len(s) and not inset(s[j], WS): j += 1
                out.append(s[i:j]); i = j
        i = 0
        while True:
            j = -1 if maxsplit >= 0 and len(out) == maxsplit else StrOps.find(s, sep, i)
            if j < 0: out.append(s[i:]); return out
            out.append(s[i:j]); i = j + len(sep)
    def rsplit(s, sep=None, maxsplit=-1):
        if maxsplit < 0: return StrOps.split(s, sep)
        if sep is None: raise Unsupported('rsplit')
        out = []; e = len(s)
        while len(out) < maxsplit:
            j = StrOps.rfind(s, sep, 0, e)
            if j < 0: break
            out.append(s[j + len(sep):e]); e = j
        out.append(s[:e]); out.reverse(); return out
    def lstrip(s, cs=None):
        i = 0
        while i < len(s) and inset(s[i], WS if cs is None else cs): i += 1
        return s[i:]
    def rstrip(s, cs=None):
        i = len(s)
        while i > 0 and inset(s[i - 1], WS if cs is None else cs): i -= 1
        return s[:i]
    def strip(s, cs=None): return StrOps.rstrip(StrOps.lstrip(s, cs), cs)
    def removeprefix(s, p): return s[len(p):] if StrOps.startswith(s, p) else s
    def removesuffix(s, p): return s[:len(s) - len(p)] if p and StrOps.endswith(s, p) else s
    def replace(s, a, b, n=-1): return b.join(StrOps.split(s, a, n))
    def partition(s, p): i = StrOps.find(s, p); return (s, '', '') if i < 0 else (s[:i], p, s[i + len(p):])
    def rpartition(s, p): i = StrOps.rfind(s, p); return ('', '', s) if i < 0 else (s[:i], p, s[i + len(p):])
    def splitlines(s, keep=False):
        r = StrOps.split(s, '\n')
        if r and r[-1] == '': r.pop()
        return r
    def lower(s): return ''.join(c if ord(c) < BASE or all(d == d.lower() for d in tok(c).dom) else conctok(c) for c in s).lower()
    def upper(s): return ''.join(c if ord(c) < BASE or all(d == d.upper() for d in tok(c).dom) else conctok(c) for c in s).upper()
def percent(f, args):
    if not isinstance(f, str): return f % args
    if not anysym(args) and not issym(f): return f % args
    f = conc(f); i = 0; out = []; k = 0; tup = args if isinstance(args, tuple) else (args,)
    while i < len(f):
        if f[i] != '%': out.append(f[i]); i += 1; continue
        i += 1; key = None
        if i < len(f) and f[i] == '%': out.append('%'); i += 1; continue
        if i < len(f) and f[i] == '(': j = f.index(')', i); key = f[i + 1:j]; i = j + 1
        j = i
        while j < len(f) and f[j] in '#0- +.123456789': j += 1
        spec = f[i:j]
        if j >= len(f): raise ValueError('incomplete format')
        conv = f[j]; i = j + 1
        if key is None:
            if k >= len(tup): raise TypeError('not enough arguments for format string')
            v = tup[k]; k += 1
        else: v = get(args, key)
        if conv == 's' and not spec: out.append(texts(v))
        elif conv in 'di' and not spec and isinstance(v, SymInt): out.append(numtok(v))
        else: out.append(('%' + spec + conv) % (deep(v),))
    if k < len(tup) and not isinstance(args, dict): raise TypeError('not all arguments converted during string formatting')
    return ''.join(out)
def strformat(s, a, k):
    import string
    out = []; n = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if field is None: continue
        if field == '': v = a[n]; n += 1
        elif field.isdigit(): v = a[int(field)]
        elif field.isidentifier(): v = k[field]
        else: raise Unsupported('format field')
        out.append(texts(v) if not spec and not conv else format(deep(v), spec))
    return ''.join(out)
def get(o, i):
    if type(o) is dict or isinstance(o, dict): 
        i = canon(o, i)
        return o[i]
    if isinstance(o, str): o = conc(o, 'en') if issym(o) else o
    if isinstance(i, (SymInt, SymBool)): i = int(i)
    return o[i]
def key(o, i): return canon(o, i) if isinstance(o, dict) else int(i) if isinstance(i, (SymInt, SymBool)) else i
def it(x):
    if isinstance(x, (set, frozenset)):
        l = list(x)   # in an arbitrary order
        if len(l) > 1 and C.pick(2, 'order of a set'): l.reverse(); C.setorder = True
        elif len(l) > 1: C.setorder = True
        return l
    if isinstance(x, str) and issym(x): return conc(x, 'en')
    return x
def mkset(xs):
    s = set()
    for x in it(xs): s.add(canon(s, hashable(x)))
    return s
def hashable(x): return int(x) if isinstance(x, SymInt) else bool(x) if isinstance(x, SymBool) else x
def mkdict(pairs):
    d = {}
    for k, v in pairs: d[canon(d, hashable(k))] = v
    return d
OPS = {'Eq': operator.eq, 'NotEq': operator.ne, 'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}
def isin(a, b):
    if isinstance(b, str): return StrOps.find(conc(b, 'en'), conc(a, 'en')) >= 0 if issym(a) or issym(b) else a in b
    if isinstance(b, (dict, set, frozenset)) or type(b).__name__ in ('dict_keys', 'Environ'): return canon(b, a) in b
    if type(b).__name__ in ('dict_values', 'list', 'tuple', 'map', 'filter', 'generator', 'reversed'): return any(same(x, a) for x in b)
    return a in b
def cmp(op, a, b):
    if op == 'In': return isin(a, b)
    if op == 'NotIn': return not isin(a, b)
    if op == 'Eq': return wrap(eqv(a, b))
    if op == 'NotEq':
        r = eqv(a, b); return (not r) if isinstance(r, bool) else SymBool(z3.Not(r))
    if op == 'Is': return a is b
    if op == 'IsNot': return a is not b
    if isinstance(a, str) or type(a) in (list, tuple): 
        if op in ('Lt', 'GtE'): r = less(a, b); return r if op == 'Lt' else not r
        r = less(b, a); return r if op == 'Gt' else not r
    return OPS[op](a, b)
def chain(a, rest):
    for op, f in rest:
        b = f()
        if not cmp(op, a, b): return False
        a = b
    return True
BIN = {'Sub': operator.sub, 'BitAnd': operator.and_, 'BitOr': operator.or_, 'BitXor': operator.xor}
def binop(op, a, b):
    if op == 'Mod': return percent(a, b)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and (anysym(a) or anysym(b)):
        inb = [canon(b, x) in b for x in a]; 
        if op == 'BitAnd': return {x for x, y in zip(a, inb) if y}
        if op == 'Sub': return {x for x, y in zip(a, inb) if not y}
        r = set(a)
        for x in b: r.add(canon(r, x))
        if op == 'BitOr': return r
        raise Unsupported('symmetric difference')
    return BIN[op](a, b)
def joined(parts): return ''.join(parts)
def fmt(v, conv, spec):
    if conv == -1 and not spec: return texts(v)
    if conv == 115 and not spec: return texts(v)
    if spec == 'd' and isinstance(v, SymInt): return numtok(v)
    v = deep(v); v = repr(v) if conv == 114 else str(v) if conv == 115 else v
    return format(v, spec or '')
def setmeth(o, n, a):
    if n == 'add': o.add(canon(o, hashable(a[0]))); return
    if n == 'discard': o.discard(canon(o, a[0])); return
    if n == 'remove': o.remove(canon(o, a[0])); return
    if n in ('update', 'union'):
        r = o if n == 'update' else set(o)
        for x in a:
            for y in it(x): r.add(canon(r, hashable(y)))
        return None if n == 'update' else r
    if n == 'intersection': return binop('BitAnd', o, mkset(a[0]))
    if n == 'difference': return binop('Sub', o, mkset(a[0]))
    if n == 'isdisjoint': return not any(isin(x, o) for x in a[0])
    if n == 'issubset': return all(isin(x, a[0]) for x in o)
    if n == 'issuperset': return all(isin(x, o) for x in a[0])
    if n == '__contains__': return isin(a[0], o)
    return getattr(o, n)(*a)
def meth(o, n, *a, **k):
    if isinstance(o, str) and type(o) is str:
        if n == 'join':
            xs = list(it(a[0])); return o.join(xs)
        if not (issym(o) or anysym(a) or anysym(k)): return getattr(o, n)(*a, **k)
        if n == 'format': return strformat(conc(o), a, k)
        o = norm(o)
        if hasattr(StrOps, n): o = conc(o, 'en'); return getattr(StrOps, n)(o, *[conc(x, 'en') if isinstance(x, str) else tuple(norm(y) for y in x) if isinstance(x, tuple) else x for x in a], **k)
        return getattr(conc(o), n)(*deep(a), **deep(k))
    if isinstance(o, list):
        if n == 'sort': o[:] = sort(o, **k); return
        if n == 'extend': o.extend(list(it(a[0]))); return
        if n in ('remove', 'index', 'count') and (anysym(o) or anysym(a)):
            idx = [i for i, x in enumerate(o) if same(x, a[0])]
            if n == 'count': return len(idx)
            if not idx: raise ValueError('not in list')
            if n == 'index': return idx[0]
            del o[idx[0]]; return
        return getattr(o, n)(*a, **k)
    if isinstance(o, (set, frozenset)): return setmeth(o, n, a)
    if isinstance(o, dict):
        if n in ('get', 'setdefault', 'pop', '__getitem__', '__contains__') and a: 
            return getattr(o, n)(canon(o, a[0]), *a[1:])
        if n == 'update':
            for x in a:
                for q, v in (x.items() if isinstance(x, dict) else it(x)): o[canon(o, q)] = v
            for q, v in k.items(): o[canon(o, q)] = v
            return
        return getattr(o, n)(*a, **k)
    if o is dict and n == 'fromkeys': return mkdict([(x, a[1] if len(a) > 1 else None) for x in it(a[0])])
    if o is str and n in ('join', 'format', 'strip', 'split', 'lower', 'startswith', 'endswith'): return meth(a[0], n, *a[1:], **k)
    return call(getattr(o, n), *a, **k)
DIRECT = {id(x): x for x in (zip, map, filter, any, all, sum, reversed, iter, next, range, callable, type, hasattr, getattr, setattr, super, object, id, vars, abs, min, max, BaseException, Exception)}
def call(f, *a, **k):
    if getattr(f, '_stub', False): return f(*a, **k)
    if f is str: return texts(*a) if a else ''
    if f is repr: return "'" + a[0] + "'" if isinstance(a[0], str) and issym(a[0]) else repr(deep(a[0]))
    if f is int and a and isinstance(a[0], str) and issym(a[0]):
        s = norm(a[0])
        if len(s) == 1 and tok(s).kind == 'n': return SymInt(tok(s).expr)
        return int(conc(s), *a[1:])
    if f is int and a and isinstance(a[0], (SymInt, SymBool)): return SymInt(_num(a[0]))
    if f is bool and a and isinstance(a[0], (SymInt, SymBool)): return SymBool(a[0].e != 0) if isinstance(a[0], SymInt) else a[0]
    if f is len: return len(conc(a[0], 'en')) if isinstance(a[0], str) else len(a[0])
    if f in (set, frozenset): return mkset(a[0]) if a else set()
    if f is dict: 
        d = mkdict(a[0].items() if isinstance(a[0], dict) else [tuple(x) for x in it(a[0])]) if a else {}
        d.update(k); return d
    if f in (list, tuple): return f(it(a[0])) if a else f()
    if f is sorted: return sort(list(a[0]), **k)
    if f is enumerate: return enumerate(it(a[0]), *a[1:], **k)
    if f in (min, max):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not xs: return k['default'] if 'default' in k else f([])
        xs = sort(xs, k.get('key')) if f is min else sort(xs, k.get('key'))
        return xs[0] if f is min else xs[-1]
    if f is isinstance and isinstance(a[0], (SymInt, SymBool)):
        ts = a[1] if isinstance(a[1], tuple) else (a[1],); return int in ts or (bool in ts and isinstance(a[0], SymBool))
    if f in (any, all, zip, map, filter): return f(*[it(x) if not callable(x) else x for x in a])
    if id(f) in DIRECT or isinstance(f, types.FunctionType) and ('__rt' in f.__globals__ or f.__module__ == __name__) or isinstance(f, types.MethodType) and isinstance(f.__func__, types.FunctionType) and '__rt' in f.__func__.__globals__: return f(*a, **k)
    if isinstance(f, type) and (issubclass(f, BaseException) or '__rt' in getattr(sys.modules.get(f.__module__), '__dict__', {}) or getattr(f, '_sym', False)): return f(*a, **k)
    m = getattr(f, '__self__', None)
    if isinstance(m, (list, dict, set, str)) and not isinstance(f, type): return meth(m, f.__name__, *a, **k)
    if anysym(a) or anysym(k): return f(*deep(a), **deep(k))
    return f(*[list(it(x)) if isinstance(x, (set, frozenset)) else x for x in a], **k)
def enter(n): C.fns.add(n)
class T(ast.NodeTransformer):
    def __init__(self, mod): self.mod = mod
    def rt(self, n, *args, kw=()): return ast.Call(func=ast.Attribute(value=ast.Name(id='__rt', ctx=ast.Load()), attr=n, ctx=ast.Load()), args=list(args), keywords=list(kw))
    def visit_Compare(self, n):
        self.generic_visit(n); ops = [type(o).__name__ for o in n.ops]
        if len(ops) == 1: return n if ops[0] in ('Is', 'IsNot') else self.rt('cmp', ast.Constant(ops[0]), n.left, n.comparators[0])
        return self.rt('chain', n.left, ast.Tuple(elts=[ast.Tuple(elts=[ast.Constant(o), ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=c)], ctx=ast.Load()) for o, c in zip(ops, n.comparators)], ctx=ast.Load()))
    def visit_BinOp(self, n):
        self.generic_visit(n); o = type(n.op).__name__
        return self.rt('binop', ast.Constant(o), n.left, n.right) if o in ('Mod', 'Sub', 'BitAnd', 'BitOr', 'BitXor') else n
    def visit_AugAssign(self, n):
        self.generic_visit(n); o = type(n.op).__name__
        if o in ('Mod', 'Sub', 'BitAnd', 'BitOr', 'BitXor'):
            l = copy.deepcopy(n.target); l.ctx = ast.Load(); return ast.Assign(targets=[n.target], value=self.rt('binop', ast.Constant(o), l, n.value))
        return n
    def visit_Subscript(self, n):
        self.generic_visit(n); s = n.slice
        if isinstance(s, ast.Slice): s = ast.Call(func=ast.Name(id='slice', ctx=ast.Load()), args=[x or ast.Constant(None) for x in (s.lower, s.upper, s.step)], keywords=[])
        if isinstance(n.ctx, ast.Load): return self.rt('get', n.value, s)
        if not isinstance(n.slice, ast.Slice): n.slice = self.rt('key', copy.deepcopy(n.value), n.slice)
        return n
    def visit_AnnAssign(self, n): n.annotation = ast.Constant(None); self.generic_visit(n); return n
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('super', 'locals', 'globals'): return n
        if isinstance(n.func, ast.Attribute): 
            if isinstance(n.func.value, ast.Name) and n.func.value.id == '__rt': return n
            return self.rt('meth', n.func.value, ast.Constant(n.func.attr), *n.args, kw=n.keywords)
        return self.rt('call', n.func, *n.args, kw=n.keywords)
    def visit_Set(self, n): self.generic_visit(n); return self.rt('mkset', ast.List(elts=n.elts, ctx=ast.Load()))
    def visit_SetComp(self, n): self.generic_visit(n); return self.rt('mkset', ast.ListComp(elt=n.elt, generators=n.generators))
    def visit_DictComp(self, n): self.generic_visit(n); return self.rt('mkdict', ast.ListComp(elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators))
    def visit_Dict(self, n):
        self.generic_visit(n)
        if any(k is None for k in n.keys): return n
        return self.rt('mkdict', ast.List(elts=[ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(n.keys, n.values)], ctx=ast.Load()))
    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(v)
            else: parts.append(self.rt('fmt', self.visit(v.value), ast.Constant(v.conversion), self.visit_JoinedStr(v.format_spec) if v.format_spec else ast.Constant(None)))
        return self.rt('joined', ast.List(elts=parts, ctx=ast.Load()))
    def visit_For(self, n): self.generic_visit(n); n.iter = self.rt('it', n.iter); return n
    def visit_comprehension(self, n): self.generic_visit(n); n.iter = self.rt('it', n.iter); return n
    def visit_Starred(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load): n.value = self.rt('it', n.value)
        return n
    def visit_Match(self, n): n.subject = self.rt('deep', n.subject); self.generic_visit(n); return n
    def visit_FunctionDef(self, n):
        self.generic_visit(n); n.body.insert(0, ast.Expr(value=self.rt('enter', ast.Constant(f'{n.name} ({self.mod}:{n.lineno})')))); return n
CODE = {}
def compiled(path, label):
    if path not in CODE:
        src = open(path).read(); tree = T(label).visit(ast.parse(src, path)); ast.fix_missing_locations(tree); CODE[path] = compile(tree, path, 'exec')
    return CODE[path]
class RtModule: pass
RT = RtModule()
for _n in ('cmp', 'chain', 'binop', 'get', 'key', 'call', 'meth', 'mkset', 'mkdict', 'fmt', 'joined', 'it', 'deep', 'enter'): setattr(RT, _n, globals()[_n])
class Module(types.ModuleType): pass
def load(path, label, name, imports, extra):
    """executes the (transformed) source; imports: name -> module or callable"""
    m = Module(name); g = m.__dict__; b = dict(builtins.__dict__)
    b['__import__'] = imports; b.update(extra); g.update(__builtins__=b, __rt=RT, __name__=name, __file__=path)
    exec(compiled(path, label), g); return m
def explore(fn, budget_s, stats, max_paths=200000, collect=None, prefix=None, shard=None):
    """fn(path) runs one path. Returns (violations, incomplete)."""
    global C
    deadline = time.time() + budget_s; stack = [prefix or []]; viol = {}; incomplete = {}; reached = {}; fns = set(); samples = []
    while stack:
        p = Path(stack.pop(), stats, deadline); C = p
        try:
            fn(p); stats['paths'] += 1
            if p.unsup: raise Unsupported(p.unsup)
        except Stop: pass
        except Violation as v:
            stats['paths'] += 1
            if p.unsup: incomplete[p.unsup] = incomplete.get(p.unsup, 0) + 1; stack.extend(p.alts); continue
            if v.msg not in viol: viol[v.msg] = dict(msg=v.msg, case=collect(p, v.model, False) if collect else None)
        except Unsupported as e: incomplete[str(e)] = incomplete.get(str(e), 0) + 1
        else:
            for l in p.reached: reached[l] = reached.get(l, 0) + 1
            if collect and len(samples) < 200 and (stats['paths'] % 7 == 1 or len(samples) < 12) and p.check(): samples.append(collect(p, p.solver.model(), True))
        fns |= p.fns; stack.extend(p.alts)
        if time.time() > deadline or stats['paths'] > max_paths: incomplete['budget exceeded'] = len(stack); break
    return list(viol.values()), incomplete, reached, fns, samples
