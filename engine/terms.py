"""Hash-consed real/integer terms used by the symbolic executor.

Doubles of the program are interpreted as mathematical reals.  A double literal
stands for the simplest rational within 2 ulp of it (1.4 -> 7/5, 1.0/3 -> 1/3);
the well known constants pi, e, sqrt(2) are recognised too.
"""
from fractions import Fraction
import math, re, struct

class Term:
    __slots__ = ('op', 'args', 'id', '_h', 'closed', 'poison')
    _table = {}
    _next = 0
    def __repr__(self):
        return show(self)
    def __hash__(self):
        return self.id
    def __eq__(self, o):
        return self is o

CLOSED_FNS = {'sqrt', 'abs', 'log', 'exp', 'sin', 'cos', 'tan', 'atan'}
def _mk(op, *args):
    key = (op,) + tuple(('t', a.id) if isinstance(a, Term) else a for a in args)
    t = Term._table.get(key)
    if t is None:
        t = Term()
        t.op = op; t.args = args; t.id = Term._next
        t.closed = op not in ('av', 'bv', 'select', 'store') and (op != 'v' or args[0] in ('#pi', '#e')) and (op != 'fn' or args[0] in CLOSED_FNS) and all(a.closed for a in args if isinstance(a, Term))
        # depends on a quotient by zero: not a number, whatever it is multiplied with
        t.poison = (op == '/' and args[1].op == 'c' and args[1].args[0] == 0) or any(a.poison for a in args if isinstance(a, Term))
        Term._next += 1
        Term._table[key] = t
    return t

ZERO = None
def const(x):
    return _mk('c', Fraction(x))
ZERO = const(0); ONE = const(1); TWO = const(2); HALF = const(Fraction(1, 2))
def var(name, sort='R'):
    return _mk('v', name, sort)
PI = _mk('v', '#pi', 'R')
EULER_E = _mk('v', '#e', 'R')
UNDEF = _mk('v', '#undef', 'R')

def isc(t):
    return t.op == 'c'

def add(a, b):
    if isc(a):
        if isc(b): return const(a.args[0] + b.args[0])
        if a.args[0] == 0: return b
    if isc(b) and b.args[0] == 0: return a
    if a.id > b.id: a, b = b, a
    if not a.poison:
        if b.op == 'neg' and b.args[0] is a: return ZERO
        if a.op == 'neg' and a.args[0] is b: return ZERO
    return _mk('+', a, b)
def neg(a):
    if isc(a): return const(-a.args[0])
    if a.op == 'neg': return a.args[0]
    return _mk('neg', a)
def sub(a, b):
    if a is b and not a.poison: return ZERO
    return add(a, neg(b))
def mul(a, b):
    if isc(a):
        if isc(b): return const(a.args[0] * b.args[0])
        if a.args[0] == 0 and not b.poison: return ZERO
        if a.args[0] == 1: return b
        if a.args[0] == -1: return neg(b)
    if isc(b):
        if b.args[0] == 0 and not a.poison: return ZERO
        if b.args[0] == 1: return a
        if b.args[0] == -1: return neg(a)
    if a.op == 'neg' and b.op == 'neg': return mul(a.args[0], b.args[0])
    if a.op == 'neg': return neg(mul(a.args[0], b))
    if b.op == 'neg': return neg(mul(a, b.args[0]))
    if a.id > b.id: a, b = b, a
    return _mk('*', a, b)
def div(a, b):
    if isc(b) and b.args[0] != 0:
        return mul(a, const(1 / b.args[0]))
    if isc(a) and a.args[0] == 0 and not isc(b) and not b.poison: return ZERO
    if a.op == 'neg' and b.op == 'neg': return div(a.args[0], b.args[0])
    if a.op == 'neg': return neg(div(a.args[0], b))
    if b.op == 'neg': return neg(div(a, b.args[0]))
    return _mk('/', a, b)
def ipow(a, n):
    if isc(a):
        if n >= 0 or a.args[0] != 0: return const(a.args[0] ** n)
    if n == 0: return ONE
    if n == 1: return a
    return _mk('ipow', a, n)
def isqrt_frac(q):
    if q < 0: return None
    n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
    if n * n == q.numerator and d * d == q.denominator: return Fraction(n, d)
    return None
def sqrt_split(n):
    c, ps, d = 1, [], 2
    while d * d <= n and d < 5000:
        e = 0
        while n % d == 0: n //= d; e += 1
        c *= d ** (e // 2)
        if e % 2: ps.append(d)
        d += 1
    if n > 1:
        r = math.isqrt(n)
        if r * r == n: c *= r
        elif d * d > n: ps.append(n)
        else: return c, None
    return c, ps
def fn(name, *args):
    a = args[0] if args else None
    if name == 'sqrt':
        if isc(a):
            r = isqrt_frac(a.args[0])
            if r is not None: return const(r)
            q = a.args[0]
            if q > 0 and q.numerator < 10 ** 9 and q.denominator < 10 ** 9:   # sqrt(n/d) = rational * product of square roots of primes
                c, ps = sqrt_split(q.numerator * q.denominator)
                if ps is not None and (c != q.denominator or len(ps) > 1):
                    r = const(Fraction(c, q.denominator))
                    for p in ps: r = mul(r, _mk('fn', 'sqrt', const(p)))
                    return r
    elif name == 'tgamma':
        if isc(a) and a.args[0].denominator == 1 and 0 < a.args[0] < 60: return const(math.factorial(int(a.args[0]) - 1))
    elif name == 'abs':
        if isc(a): return const(abs(a.args[0]))
        if a.op == 'neg': return fn('abs', a.args[0])
        if a.op == 'fn' and a.args[0] in ('abs', 'sqrt', 'exp'): return a
    elif name == 'log':
        if isc(a) and a.args[0] == 1: return ZERO
        if a.op == 'fn' and a.args[0] == 'exp': return a.args[1]
    elif name == 'exp':
        if isc(a) and a.args[0] == 0: return ONE
    elif name == 'sin':
        if isc(a) and a.args[0] == 0: return ZERO
        if a.op == 'neg': return neg(fn('sin', a.args[0]))
    elif name == 'cos':
        if isc(a) and a.args[0] == 0: return ONE
        if a.op == 'neg': return fn('cos', a.args[0])
    elif name in ('atan', 'tanh', 'atanh', 'asin', 'cbrt'):
        if isc(a) and a.args[0] == 0: return ZERO
    elif name == 'acos':
        if isc(a) and a.args[0] == 1: return ZERO
    elif name == 'pow':
        b = args[1]
        if isc(b):
            e = b.args[0]
            if e.denominator == 1 and abs(e.numerator) < 200:
                return ipow(a, e.numerator)
            if e == Fraction(1, 2): return fn('sqrt', a)
    return _mk('fn', name, *args)
def tmax(a, b):
    if isc(a) and isc(b): return const(max(a.args[0], b.args[0]))
    if a is b: return a
    if a.id > b.id: a, b = b, a
    return _mk('max', a, b)
def tmin(a, b):
    if isc(a) and isc(b): return const(min(a.args[0], b.args[0]))
    if a is b: return a
    if a.id > b.id: a, b = b, a
    return _mk('min', a, b)

# ---- integers (mathematical; width obligations are produced by the executor)
def iop(op, a, b):
    """op in i/ i% (C truncating)"""
    if isc(a) and isc(b) and b.args[0] != 0:
        x, y = int(a.args[0]), int(b.args[0])
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0): q = -q
        return const(q if op == 'idiv' else x - q * y)
    if op == 'idiv' and isc(b) and b.args[0] == 1: return a
    return _mk(op, a, b)
def select(arr, idx):
    """arr: an array term"""
    a = arr
    while a.op == 'store':
        base, i, v = a.args
        if i is idx: return v
        if isc(i) and isc(idx):
            a = base; continue
        break
    return _mk('select', a, idx)
def store(arr, idx, val):
    return _mk('store', arr, idx, val)
def arrayvar(name, sort='R'):
    return _mk('av', name, sort)

# ---- booleans
TRUE = _mk('true'); FALSE = _mk('false')
def bconst(b): return TRUE if b else FALSE
def cmp(op, a, b):
    """op: lt le eq ne (normalised)"""
    if op == 'gt': return cmp('lt', b, a)
    if op == 'ge': return cmp('le', b, a)
    if isc(a) and isc(b):
        x, y = a.args[0], b.args[0]
        return bconst({'lt': x < y, 'le': x <= y, 'eq': x == y, 'ne': x != y}[op])
    if a is b and not a.poison:
        return bconst(op in ('le', 'eq'))
    if op in ('eq', 'ne') and a.id > b.id: a, b = b, a
    return _mk(op, a, b)
def bnot(x):
    if x is TRUE: return FALSE
    if x is FALSE: return TRUE
    o = x.op
    if o == 'not': return x.args[0]
    if o == 'lt': return cmp('le', x.args[1], x.args[0])
    if o == 'le': return cmp('lt', x.args[1], x.args[0])
    if o == 'eq': return cmp('ne', *x.args)
    if o == 'ne': return cmp('eq', *x.args)
    return _mk('not', x)
def band(a, b):
    if a is FALSE or b is FALSE: return FALSE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is b: return a
    return _mk('and', a, b)
def bor(a, b):
    if a is TRUE or b is TRUE: return TRUE
    if a is FALSE: return b
    if b is FALSE: return a
    if a is b: return a
    return _mk('or', a, b)
def bvar(name): return _mk('bv', name)
BOOL_OPS = {'true', 'false', 'lt', 'le', 'eq', 'ne', 'not', 'and', 'or', 'bv', 'forall'}
def isbool(t): return t.op in BOOL_OPS

# ---- double literal -> rational
_SPECIAL = []
for k, v in (('#pi', math.pi), ('#e', math.e)):
    _SPECIAL.append((k, v))
_SPECIAL.append(('#pi2', math.pi ** 2))
_litcache = {}
def from_double(x):
    t = _litcache.get(x)
    if t is None:
        t = _from_double(x); _litcache[x] = t
    return t
def _from_double(x):
    if math.isnan(x): return var('#nan')
    if math.isinf(x): return var('#inf') if x > 0 else neg(var('#inf'))
    if x == 0: return ZERO
    if x == int(x) and abs(x) < 1e15: return const(int(x))
    for k, v in _SPECIAL:
        r = x / v
        f = Fraction(r).limit_denominator(2000)
        if f != 0 and f.numerator < 10**4 and abs(float(f) - r) <= 4e-16 * abs(r) and abs(r) < 1e4:
            # only accept if x is not itself a short decimal
            if len(repr(abs(x)).replace('.', '').lstrip('0').split('e')[0]) >= 14:
                return mul(const(f), mul(PI, PI) if k == '#pi2' else var(k))
    # algebraic: +-sqrt(p/q) with small p,q
    tol = 5e-16
    s = repr(x)
    digs = s.replace('-', '').replace('.', '').split('e')[0].strip('0')
    dec = Fraction(s)
    if len(digs) <= 12: return const(dec)
    f = Fraction(x).limit_denominator(5000)
    if f != 0 and abs(Fraction(x) - f) <= Fraction(tol) * abs(Fraction(x)): return const(f)
    # short decimal close by (e.g. 1.4-1.0)
    d = Fraction(('%.12e' % x))
    if abs(Fraction(x) - d) <= Fraction(tol) * abs(Fraction(x)): return const(d)
    f = Fraction(x * x).limit_denominator(2000)
    if f != 0 and f.numerator < 10**5 and abs(float(f) - x * x) <= 6e-16 * x * x:
        r = fn('sqrt', const(f))
        return r if x > 0 else neg(r)
    return const(Fraction(x))

def bits_to_double(n, size=8):
    return struct.unpack('<d' if size == 8 else '<f', n.to_bytes(size, 'little'))[0]

# ---- printing / evaluation
def show(t, depth=6):
    o = t.op
    if o == 'c':
        return str(t.args[0])
    if o in ('v', 'av', 'bv'): return t.args[0]
    if depth <= 0: return '..'
    d = depth - 1
    if o in '+*/': return '(%s %s %s)' % (show(t.args[0], d), o, show(t.args[1], d))
    if o == 'neg': return '-%s' % show(t.args[0], d)
    if o == 'ipow': return '%s^%d' % (show(t.args[0], d), t.args[1])
    if o == 'fn': return '%s(%s)' % (t.args[0], ', '.join(show(a, d) for a in t.args[1:]))
    return '%s(%s)' % (o, ', '.join(show(a, d) if isinstance(a, Term) else str(a) for a in t.args))

def topo(roots, seen=None):
    """terms below roots, children first (iterative)"""
    if seen is None: seen = set()
    out = []
    stack = [(r, False) for r in roots]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t); continue
        if t.id in seen: continue
        seen.add(t.id)
        stack.append((t, True))
        for a in t.args:
            if isinstance(a, Term) and a.id not in seen:
                stack.append((a, False))
    return out

def subst(roots, m):
    """replaces variables (m: id -> term) and simplifies; None if a changed term has an operation not handled here"""
    val = {}
    for t in topo(roots):
        if t.id in m: val[t.id] = m[t.id]; continue
        n = [val[x.id] if isinstance(x, Term) else x for x in t.args]
        if any(x is None for x in n if not isinstance(x, (str, int, Fraction))): val[t.id] = None; continue
        if all(x is y for x, y in zip(n, t.args)): val[t.id] = t; continue
        o = t.op
        val[t.id] = add(*n) if o == '+' else neg(*n) if o == 'neg' else mul(*n) if o == '*' else div(*n) if o == '/' else ipow(*n) if o == 'ipow' else fn(*n) if o == 'fn' else tmax(*n) if o == 'max' else tmin(*n) if o == 'min' else cmp(o, *n) if o in ('lt', 'le', 'eq', 'ne') else None
    return [val[r.id] for r in roots]

INF = 1000
def degree(roots, g):
    """joint degree of each root in the variables g (ids), INF if it is not a polynomial of low degree in them"""
    d = {}
    for t in topo(roots):
        o = t.op
        a = [d[x.id] for x in t.args if isinstance(x, Term)]
        if t.id in g: r = 1
        elif not any(a): r = 0
        elif o == '+': r = max(a)
        elif o == 'neg': r = a[0]
        elif o == '*': r = sum(a)
        elif o == '/' and a[1] == 0: r = a[0]
        elif o == 'ipow' and t.args[1] > 0: r = a[0] * t.args[1]
        else: r = INF
        d[t.id] = min(r, INF)
    return [d[r.id] for r in roots]

def free_vars(roots):
    return [t for t in topo(roots) if t.op in ('v', 'av', 'bv')]

class EvalError(Exception): pass

def evaluate(roots, env, ufs=None, mod=math):
    """numeric evaluation.  env: name->float; ufs: name->callable"""
    val = {}
    for t in topo(roots):
        o = t.op
        a = [val[x.id] if isinstance(x, Term) else x for x in t.args]
        if o == 'c': v = mod_num(mod, t.args[0])
        elif o == 'v':
            n = t.args[0]
            if n == '#pi': v = mod.pi if mod is math else +mod.pi
            elif n == '#e': v = mod.e if mod is math else +mod.e
            elif n in env: v = env[n]
            else: raise EvalError('unbound ' + n)
        elif o == 'bv':
            v = env[t.args[0]]
        elif o == '+': v = a[0] + a[1]
        elif o == '*': v = a[0] * a[1]
        elif o == 'neg': v = -a[0]
        elif o == '/': v = a[0] / a[1]
        elif o == 'ipow': v = a[0] ** a[1]
        elif o == 'max': v = max(a)
        elif o == 'min': v = min(a)
        elif o == 'fn': v = evalfn(a[0], a[1:], ufs, mod)
        elif o == 'idiv': v = int(a[0] / a[1])
        elif o == 'imod': v = math.fmod(a[0], a[1])
        elif o == 'lt': v = a[0] < a[1]
        elif o == 'le': v = a[0] <= a[1]
        elif o == 'eq': v = a[0] == a[1]
        elif o == 'ne': v = a[0] != a[1]
        elif o == 'not': v = not a[0]
        elif o == 'and': v = a[0] and a[1]
        elif o == 'or': v = a[0] or a[1]
        elif o == 'true': v = True
        elif o == 'false': v = False
        else: raise EvalError('op ' + o)
        val[t.id] = v
    return [val[r.id] for r in roots]

def mod_num(mod, q):
    if mod is math: return q.numerator / q.denominator
    return mod.mpf(q.numerator) / q.denominator

def evalfn(name, a, ufs, mod):
    if name == 'sqrt': return mod.sqrt(a[0])
    if name == 'abs': return abs(a[0])
    if name == 'log': return mod.log(a[0])
    if name == 'exp': return mod.exp(a[0])
    if name == 'sin': return mod.sin(a[0])
    if name == 'cos': return mod.cos(a[0])
    if name == 'tan': return mod.tan(a[0])
    if name == 'tanh': return mod.tanh(a[0])
    if name == 'atan': return mod.atan(a[0])
    if name == 'atan2': return mod.atan2(a[0], a[1])
    if name == 'acos': return mod.acos(a[0])
    if name == 'asin': return mod.asin(a[0])
    if name == 'cbrt':
        return math.copysign(abs(a[0]) ** (1 / 3.), a[0]) if mod is math else mod.sign(a[0]) * mod.cbrt(abs(a[0]))
    if name == 'pow':
        if mod is math: return math.pow(a[0], a[1])
        return mod.power(a[0], a[1])
    if name == 'tgamma': return mod.gamma(a[0])
    if ufs is not None and name in ufs: return ufs[name](*a)
    raise EvalError('fn ' + name)

# ---- symbolic differentiation (of the code's own expression)
def dname(n, k=None):
    """partial derivative of a smooth function: D<i>@D<j>@name with the indices sorted"""
    ks = [] if k is None else [k]
    while re.match(r'D\d+@', n):
        j, n = n[1:].split('@', 1); ks.append(int(j))
    return ''.join('D%d@' % j for j in sorted(ks)) + n
def diff(root, v):
    D = {}
    for t in topo([root]):
        D[t.id] = _diff1(t, v, D)
    return D[root.id]
def _diff1(t, v, D):
    o = t.op
    if t is v: return ONE
    if o in ('c', 'v'): return ZERO
    g = lambda x: D[x.id]
    if o == '+': return add(g(t.args[0]), g(t.args[1]))
    if o == 'neg': return neg(g(t.args[0]))
    if o == '*': return add(mul(g(t.args[0]), t.args[1]), mul(t.args[0], g(t.args[1])))
    if o == '/':
        a, b = t.args
        if g(a) is ZERO and g(b) is ZERO: return ZERO
        return sub(div(g(a), b), div(mul(a, g(b)), mul(b, b)))
    if o == 'ipow':
        a, n = t.args
        return mul(mul(const(n), ipow(a, n - 1)), g(a))
    if o == 'fn':
        a = t.args[1:]
        if all(g(x) is ZERO for x in a): return ZERO
        n = t.args[0]; x = a[0]; dx = g(x)
        if n == 'sqrt': return div(dx, mul(TWO, t))
        if n == 'exp': return mul(t, dx)
        if n == 'log': return div(dx, x)
        if n == 'sin': return mul(fn('cos', x), dx)
        if n == 'cos': return neg(mul(fn('sin', x), dx))
        if n == 'tan': return div(dx, ipow(fn('cos', x), 2))
        if n == 'atan': return div(dx, add(ONE, mul(x, x)))
        if n == 'tanh': return mul(sub(ONE, mul(t, t)), dx)
        if n == 'acos': return neg(div(dx, fn('sqrt', sub(ONE, mul(x, x)))))
        if n == 'asin': return div(dx, fn('sqrt', sub(ONE, mul(x, x))))
        if n == 'abs': return mul(div(x, t), dx)      # x != 0
        if n == 'pow' and g(a[1]) is ZERO: return mul(mul(a[1], fn('pow', x, sub(a[1], ONE))), dx)
        if n == 'pow' and dx is ZERO: return mul(mul(t, fn('log', x)), g(a[1]))      # x > 0
        if n[0] == '@':
            r = ZERO
            for k, y in enumerate(a):
                if g(y) is not ZERO: r = add(r, mul(fn('@' + dname(n[1:], k), *a), g(y)))
            return r
        if n in ('round', 'floor', 'ceil'): return ZERO      # away from the jumps
        if n == 'atan2':
            y, xx = a
            return div(sub(mul(xx, g(y)), mul(y, g(xx))), add(mul(xx, xx), mul(y, y)))
    raise EvalError('diff of ' + o + ' ' + str(t.args[0] if o == 'fn' else ''))
