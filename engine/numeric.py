"""numeric evaluation of obligations: counterexample candidates and vacuity witnesses"""
import math, random, re
import mpmath
from . import terms as TM
from .terms import Term

def pyfn(name):
    # a fixed smooth function determined by its name; D<i>@D<j>@name are its partial derivatives
    ks = []
    while re.match(r'D\d+@', name):
        j, name = name[1:].split('@', 1); ks.append(int(j))
    h = 1469598103934665603
    for ch in name.encode(): h = ((h ^ ch) * 1099511628211) & ((1 << 64) - 1)
    s = 0.3 + (h % 97) / 97.0
    ca = lambda i: 0.5 + ((h >> ((5 + 3 * i) % 48)) % 31) / 31.0
    cb = lambda i: ((h >> ((9 + 2 * i) % 48)) % 17) / 17.0
    ce = lambda i: 0.2 + ((h >> ((3 + 5 * i) % 48)) % 7) / 14.0
    m = len(ks)
    def f(*x):
        mod = mpmath if any(isinstance(v, mpmath.mpf) for v in x) else math
        def sn(t): return (1, 1, -1, -1)[m % 4] * (mod.sin(t) if m % 2 == 0 else mod.cos(t))   # m-th derivative of the sine
        r = s if not m else 0.0
        g = s + sum(ce(i) * v for i, v in enumerate(x))
        c = 0.3
        for k in ks: c *= ce(k)
        r += c * sn(g)
        for i, v in enumerate(x):
            if all(k == i for k in ks): r += ca(i) * (1.1 + cb(i)) ** m * sn((1.1 + cb(i)) * v + 0.7 * i + s) + (0.13 * cb(i) * (v if m == 0 else 1.0) if m < 2 else 0.0)
        return r
    return f
def _logavg_sp(s, p):
    # logarithmic mean of the two numbers with sum s and product p
    mp = isinstance(s, mpmath.mpf)
    d = s * s - 4 * p
    d = (mpmath.sqrt if mp else math.sqrt)(d if d > 0 else 0 * d)
    a, b = (s + d) / 2, (s - d) / 2
    if abs(a - b) < 1e-9 * s: return s / 2
    return (a - b) / ((mpmath.log if mp else math.log)(a) - (mpmath.log if mp else math.log)(b))
IMPL = {'logavg_sp': _logavg_sp}
class UFS(dict):
    def __contains__(self, k): return k[0] == '@' or k in ('trunc',)
    def __getitem__(self, k):
        if k == 'trunc': return lambda x: float(int(x))
        if not dict.__contains__(self, k): dict.__setitem__(self, k, IMPL.get(k[1:]) or pyfn(k[1:]))
        return dict.__getitem__(self, k)
ufs = UFS()

def sample_env(inputs, rng):
    env = {}
    for (n, lo, hi, k) in inputs:
        if k == 'R':
            u = rng.random()
            if u < 0.02 and lo <= 0 <= hi: v = 0.0
            elif u < 0.04: v = lo
            elif u < 0.06: v = hi
            elif u < 0.12 and env:
                v = rng.choice(list(env.values()))
                if not (lo <= v <= hi): v = rng.uniform(lo, hi)
            else: v = rng.uniform(lo, hi)
        else:
            v = lo + rng.randrange(min(hi - lo, 24) + 1)
        env[n] = v
    return env

def pc_free(pc):
    return [f for f in pc if not any(v.op == 'bv' for v in TM.free_vars([f]))]

def check(roots, env):
    try:
        flat = []
        for r in roots:
            if isinstance(r, Term) and r.op == 'eq': flat += list(r.args)
            else: flat.append(r)
        v = TM.evaluate(flat, env, ufs)
        out = []; i = 0
        for r in roots:
            if isinstance(r, Term) and r.op == 'eq':
                a, b = v[i], v[i + 1]; i += 2
                out.append(abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b)))
            else:
                out.append(v[i]); i += 1
        return out
    except (ValueError, ZeroDivisionError, OverflowError, TypeError):
        return None

def goal_of(ob):
    k = ob.kind
    if k in ('eq', 'le', 'lt'): return [ob.a, ob.b]
    if k == 'bool': return [ob.a]
    return []
def violated(ob, vals, tol=1e-6):
    k = ob.kind
    if k == 'fail': return True
    if k == 'bool': return not vals[0]
    a, b = vals
    s = 1 + abs(a) + abs(b)
    if k == 'eq': return abs(a - b) > tol * s
    if k == 'le': return a > b + tol * s
    return a >= b + tol * s

def sat_point(pc, inputs, rng, tries, extra=()):
    pcf = pc_free(pc)
    for i in range(tries):
        env = dict(extra[i]) if i < len(extra) else sample_env(inputs, rng)
        try: v = check(pcf, env)
        except TM.EvalError: return None
        if v is not None and all(v): return env
    return None

def falsify(ob, rng, tries):
    """input vectors violating ob numerically (candidates), 'none' if evaluation is impossible"""
    pcf = pc_free(ob.pc)
    roots = pcf + goal_of(ob)
    n = len(pcf)
    hits = 0
    for _ in range(tries):
        env = sample_env(ob.inputs, rng)
        try: v = check(roots, env)
        except TM.EvalError: return None, hits
        if v is None or not all(v[:n]): continue
        hits += 1
        g = v[n:]
        if any(isinstance(x, float) and (math.isnan(x) or math.isinf(x)) for x in g): continue
        if violated(ob, g):
            if ob.kind in ('eq', 'le', 'lt'):
                # confirm with 40 digits
                mpmath.mp.dps = 40
                try:
                    mv = TM.evaluate(goal_of(ob), {k: mpmath.mpf(x) for k, x in env.items()}, ufs, mpmath)
                    if not violated(ob, [mpmath.re(x) for x in mv], 1e-12): continue
                except Exception: continue
            return env, hits
        if hits >= 60 and tries > 60: 
            if hits >= tries // 2: break
    return None, hits
