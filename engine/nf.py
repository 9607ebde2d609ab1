"""Normal forms for real terms: products of powers of primitive integer
polynomials over atoms (variables, roots, logs, exponentials, sines, absolute
values, uninterpreted applications).  Used to discharge equalities exactly.

A value is  c * prod f_i^e_i  with c a rational and f_i registered polynomials.
Polynomials: dict  packed monomial (16 bits of exponent per atom) -> int.
"""
from fractions import Fraction
from math import gcd, isqrt
from . import terms as TM
from .terms import Term

SH = 16
MASK = (1 << SH) - 1

class Blowup(Exception): pass
class Restart(Exception): pass

def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def pscale(a, k):
    if k == 1: return a
    return {m: c * k for m, c in a.items()}
LIMIT = 400000
def pmul(a, b):
    if len(a) > len(b): a, b = b, a
    if len(a) * len(b) > 40 * LIMIT: raise Blowup('product of %d x %d terms' % (len(a), len(b)))
    if len(a) == 1:
        (m0, c0), = a.items()
        return {m + m0: c * c0 for m, c in b.items()}
    r = {}
    get = r.get
    for m0, c0 in a.items():
        for m, c in b.items():
            k = m + m0
            r[k] = get(k, 0) + c * c0
    r = {m: c for m, c in r.items() if c}
    if len(r) > LIMIT: raise Blowup('%d terms' % len(r))
    return r
def mono_items(m):
    i = 0
    out = []
    while m:
        e = m & MASK
        if e: out.append((i, e))
        m >>= SH; i += 1
    return out
def mono_exp(m, i): return (m >> (SH * i)) & MASK
def mono_gcd(ms):
    it = iter(ms)
    g = dict(mono_items(next(it)))
    for m in it:
        if not g: break
        d = dict(mono_items(m))
        g = {i: min(e, d[i]) for i, e in g.items() if i in d}
    return g
def content(p):
    g = 0
    for c in p.values():
        g = gcd(g, c)
        if g == 1: break
    return g

def pdivexact(a, b):
    """a / b if exact (integer coefficients up to rational content), else None"""
    if not b: return None
    lb = max(b); cb = b[lb]
    r = dict(a); q = {}
    steps = 0
    lbitems = mono_items(lb)
    import heapq
    while r:
        la = max(r)
        for i, e in lbitems:
            if mono_exp(la, i) < e: return None
        ca = r[la]
        if ca % cb: return None
        k = ca // cb; m = la - lb
        q[m] = k
        for mb, c in b.items():
            mm = mb + m
            v = r.get(mm, 0) - k * c
            if v: r[mm] = v
            else: r.pop(mm, None)
        steps += 1
        if steps > 4000 or len(r) > 20000: return None
    return q

class Atom:
    __slots__ = ('idx', 'kind', 'data', 'rel', 'relk', 'sign', 'name')

class RF:
    """c * prod polys^exp ; fac: dict polyid -> int exponent"""
    __slots__ = ('c', 'f')
    def __init__(self, c, f): self.c = c; self.f = f
    def key(self): return (self.c, tuple(sorted(self.f.items())))

class NF:
    def __init__(self, facts=(), timeout_terms=LIMIT):
        self.atoms = []
        self.atomkey = {}
        self.polys = []       # id -> dict
        self.polykey = {}     # frozenset(items) -> id
        self.polysign = {}    # id -> '+','-','0+','0-','0','!0'
        self.cache = {}
        self.rules = []       # (atomidx, coeffpoly, restpoly) : coeff*atom + rest = 0
        self.subst = {}       # var Term id -> RF
        self.ONE = RF(Fraction(1), {})
        self.ZERO = RF(Fraction(0), {})
        self.facts = []
        self.pending = []
        self.allowz3 = False
        self.absdepth = 0
        self._signcache = {}
        self.rootbase = {}
        self.infacts = False
        self.facts0 = facts
        self.add_facts(facts)

    # ------------------------------------------------------------- atoms
    def atom(self, kind, data, name=None, rel=None, relk=0, sign=None):
        k = (kind, data)
        a = self.atomkey.get(k)
        if a is None:
            a = Atom(); a.idx = len(self.atoms); a.kind = kind; a.data = data; a.rel = rel; a.relk = relk
            a.sign = sign; a.name = name or '%s%r' % (kind, data)
            self.atoms.append(a); self.atomkey[k] = a
        return a
    def atom_poly(self, a): return {1 << (SH * a.idx): 1}
    def atom_rf(self, a): return RF(Fraction(1), {self.reg(self.atom_poly(a)): 1})

    def reg(self, p):
        k = frozenset(p.items())
        i = self.polykey.get(k)
        if i is None:
            i = len(self.polys); self.polys.append(p); self.polykey[k] = i
        return i

    # --------------------------------------------------------- reduction
    def reduce(self, p):
        """apply root relations: atom^k -> radicand polynomial"""
        todo = [a for a in self.atoms if a.rel is not None]
        if not todo: return p
        again = True
        while again:
            again = False
            for a in todo:
                s = SH * a.idx; k = a.relk
                hit = None
                for m in p:
                    if ((m >> s) & MASK) >= k: hit = True; break
                if not hit: continue
                again = True
                groups = {}
                for m, c in p.items():
                    e = (m >> s) & MASK
                    q = e // k
                    groups.setdefault(q, {})[m - ((q * k) << s)] = c
                r = groups.pop(0, {})
                r = dict(r)
                for q, g in groups.items():
                    w = g
                    for _ in range(q): w = pmul(w, a.rel)
                    r = padd(r, w)
                p = r
        return p

    def from_poly(self, p, tryfac=()):
        """polynomial -> RF (content, monomial content, sign normalised)"""
        if not p: return self.ZERO
        p = self.reduce(p)
        if not p: return self.ZERO
        c = content(p)
        if len(p) == 1:
            (m, cc), = p.items()
            f = {}
            for i, e in mono_items(m): f[self.reg({1 << (SH * i): 1})] = e
            return self.fixroots(RF(Fraction(cc), f))
        if p[max(p)] < 0: c = -c
        if c != 1: p = {m: v // c for m, v in p.items()}
        g = mono_gcd(p)
        f = {}
        if g:
            mm = sum(e << (SH * i) for i, e in g.items())
            p = {m - mm: v for m, v in p.items()}
            for i, e in g.items(): f[self.reg({1 << (SH * i): 1})] = e
            if len(p) == 1:
                (m, cc), = p.items()
                return self.fixroots(RF(Fraction(c * cc), f))
        for d in tryfac:
            dp = self.polys[d]
            if len(dp) < 2: continue
            while len(p) > 1:
                if len(dp) > len(p) * 4: break
                q = pdivexact(p, dp)
                if q is None: break
                f[d] = f.get(d, 0) + 1
                p = q
                if len(p) == 1: break
        if len(p) == 1:
            (m, cc), = p.items()
            r = RF(Fraction(c * cc), f)
            for i, e in mono_items(m):
                k = self.reg({1 << (SH * i): 1}); f[k] = f.get(k, 0) + e
            return self.fixroots(r)
        k = self.reg(p)
        f[k] = f.get(k, 0) + 1
        return self.fixroots(RF(Fraction(c), f))

    def fixroots(self, r):
        """root atoms only with exponent in [0,k)"""
        f = None
        extra = None
        for pid, e in r.f.items():
            p = self.polys[pid]
            if len(p) == 1:
                (m, c), = p.items()
                it = mono_items(m)
                a = self.atoms[it[0][0]]
                if a.rel is not None and not (0 <= e < a.relk) :
                    if f is None: f = dict(r.f)
                    q, rem = divmod(e, a.relk)
                    if rem: f[pid] = rem
                    else: f.pop(pid)
                    x = self.pow(self.from_poly(a.rel), q)
                    extra = x if extra is None else self.mul(extra, x)
        if f is None: return r
        return self.mul(RF(r.c, f), extra)

    def expand(self, r):
        """numerator-only expansion: requires all exponents >= 0.
        returns integer poly P and denominator int d: r = P/d"""
        p = {0: r.c.numerator}
        items = sorted(r.f.items(), key=lambda kv: len(self.polys[kv[0]]))
        for pid, e in items:
            for _ in range(e): p = pmul(p, self.polys[pid])
        return self.reduce(p), r.c.denominator

    # -------------------------------------------------------- arithmetic
    def const(self, q): return RF(Fraction(q), {}) if q else self.ZERO
    def mul(self, a, b):
        if a.c == 0 or b.c == 0: return self.ZERO
        if not a.f: return RF(a.c * b.c, b.f)
        if not b.f: return RF(a.c * b.c, a.f)
        f = dict(a.f)
        for k, e in b.f.items():
            v = f.get(k, 0) + e
            if v: f[k] = v
            else: f.pop(k, None)
        return self.fixroots(RF(a.c * b.c, f))
    def inv(self, a):
        if a.c == 0: raise ZeroDivisionError
        return self.fixroots(RF(1 / a.c, {k: -e for k, e in a.f.items()}))
    def pow(self, a, n):
        if n == 0: return self.ONE
        if a.c == 0: return self.ZERO
        return self.fixroots(RF(a.c ** n, {k: e * n for k, e in a.f.items()}))
    def neg(self, a): return RF(-a.c, a.f)
    def add(self, a, b):
        if a.c == 0: return b
        if b.c == 0: return a
        if a.f == b.f:
            c = a.c + b.c
            return RF(c, a.f) if c else self.ZERO
        common = {}
        for k in set(a.f) | set(b.f):
            e = min(a.f.get(k, 0), b.f.get(k, 0))
            if e: common[k] = e
        fa = {k: e - common.get(k, 0) for k, e in a.f.items() if e != common.get(k, 0)}
        fb = {k: e - common.get(k, 0) for k, e in b.f.items() if e != common.get(k, 0)}
        for k, e in common.items():
            if k not in a.f and e < 0: fa[k] = -e
            if k not in b.f and e < 0: fb[k] = -e
        pa, da = self.expand(RF(a.c, fa)); pb, db = self.expand(RF(b.c, fb))
        l = da * db // gcd(da, db)
        s = padd(pscale(pa, l // da), pscale(pb, l // db))
        s = self.reduce(s)
        if not s: return self.ZERO
        r = self.from_poly(s, [k for k, e in common.items() if e < 0])
        return self.mul(RF(r.c / l, r.f), RF(Fraction(1), common))
    def sub(self, a, b): return self.add(a, self.neg(b))

    # -------------------------------------------------------- conversion
    def conv(self, t):
        cache = self.cache
        r = cache.get(t.id)
        if r is not None: return r
        for attempt in range(12):
            try:
                for x in TM.topo([t], set()):
                    if x.id in cache: continue
                    cache[x.id] = self.conv1(x)
                return cache[t.id]
            except Restart:
                # a root got a finer common order: everything converted so far is stale
                cache.clear()
                if not self.infacts: self.add_facts(self.facts0)
        raise Blowup('root orders')

    def conv1(self, t):
        o = t.op
        g = self.cache
        if o == 'c': return self.const(t.args[0])
        if o == 'v':
            s = self.subst.get(t.id)
            if s is not None: return s
            sign = '+' if t.args[0] in ('#pi', '#e', '#inf') else None
            return self.atom_rf(self.atom('v', t.args[0], t.args[0], sign=sign))
        if o in ('lt', 'le', 'eq', 'ne', 'not', 'and', 'or', 'true', 'false', 'bv', 'av', 'forall'): return None
        if o == '+': return self.add_n(t)
        if o == 'neg': return self.neg(g[t.args[0].id])
        if o == '*': return self.mul(g[t.args[0].id], g[t.args[1].id])
        if o == '/': return self.mul(g[t.args[0].id], self.inv(g[t.args[1].id]))
        if o == 'ipow': return self.pow(g[t.args[0].id], t.args[1])
        if o in ('max', 'min'):
            a, b = g[t.args[0].id], g[t.args[1].id]
            d = self.abs(self.sub(a, b))
            s = self.add(a, b)
            s = self.add(s, d) if o == 'max' else self.sub(s, d)
            return RF(s.c / 2, s.f)
        if o == 'fn':
            n = t.args[0]
            a = [g[x.id] for x in t.args[1:]]
            if n == 'sqrt': return self.root(a[0], 2)
            if n == 'cbrt':
                return self.root(a[0], 3) if self.sign(a[0]) in ('+', '0+', '0') else self.ufn(n, a)
            if n == 'abs': return self.abs(a[0])
            if n == 'log': return self.log(a[0])
            if n == 'exp': return self.exp(a[0])
            if n == 'pow': return self.powr(a[0], a[1])
            if n in ('sin', 'cos'): return self.trig(n, a[0])
            if n == 'tan': return self.mul(self.trig('sin', a[0]), self.inv(self.trig('cos', a[0])))
            return self.ufn(n, a)
        if o in ('idiv', 'imod', 'ifloordiv'): return self.ufn(o, [g[x.id] for x in t.args])
        if o == 'select':
            return self.ufn('select:%d' % t.args[0].id, [g[t.args[1].id]])
        if o == 'store': return None
        raise Blowup('nf: op ' + o)

    def add_n(self, t):
        """flatten a sum: terms with the same denominators are added first"""
        g = self.cache
        return self.add(g[t.args[0].id], g[t.args[1].id])

    def ufn(self, name, args):
        k = (name, tuple(a.key() for a in args))
        if ('uf', k) in self.atomkey: return self.atom_rf(self.atomkey[('uf', k)])
        # unify with an existing application whose arguments are provably equal
        for a in self.atoms:
            if a.kind == 'uf' and a.data[0] == name and len(a.data[1]) == len(args):
                try:
                    if all(self.sub(x, RF(y[0], dict(y[1]))).c == 0 for x, y in zip(args, a.data[1])):
                        return self.atom_rf(a)
                except Blowup: pass
        return self.atom_rf(self.atom('uf', k, name))

    # sqrt etc ----------------------------------------------------------
    def int_root_split(self, n, q):
        """n>0: n = a^q * b, b q-free (trial division)"""
        a, b = 1, 1
        d = 2
        while d * d <= n and d < 100000:
            e = 0
            while n % d == 0: n //= d; e += 1
            if e: a *= d ** (e // q); b *= d ** (e % q)
            d += 1
        r = round(n ** (1.0 / q))
        for x in (r - 1, r, r + 1):
            if x > 0 and x ** q == n: return a * x, b
        return a, b * n

    def psqrt(self, p):
        """polynomial square root or None (p must not contain root atoms)"""
        if len(p) > 400: return None
        lm = max(p); c = p[lm]
        if c < 0: return None
        s = isqrt(c)
        if s * s != c: return None
        for i, e in mono_items(lm):
            if e % 2: return None
            if self.atoms[i].rel is not None: return None
        h = sum((e // 2) << (SH * i) for i, e in mono_items(lm))
        r = {h: s}
        rem = padd(p, {2 * h: c}, -1)
        steps = 0
        while rem:
            steps += 1
            if steps > 60: return None
            m = max(rem)
            for i, e in mono_items(h):
                if mono_exp(m, i) < e: return None
            cc = rem[m]
            if cc % (2 * s): return None
            k = cc // (2 * s); mm = m - h
            if mm >= h: return None
            # (r + k mm)^2 - r^2 = 2 r k mm + k^2 mm^2
            rem = padd(rem, pscale(pmul(r, {mm: k}), 2), -1)
            rem = padd(rem, {2 * mm: k * k}, -1)
            r[mm] = r.get(mm, 0) + k
        return r

    def root(self, a, q):
        if a.c == 0: return self.ZERO
        res = self.ONE
        neg = a.c < 0
        odd = {}
        # constant
        if not neg: pass
        for pid, e in a.f.items():
            qq, rem = divmod(e, q)
            p = self.polys[pid]
            if qq:
                base = RF(Fraction(1), {pid: 1})
                if q % 2 == 0 and (qq % 2): base = self.abs(base)
                res = self.mul(res, self.pow(base, qq))
            if rem:
                if q == 2 and len(p) > 1:
                    s = self.psqrt(p)
                    if s is not None:
                        res = self.mul(res, self.abs(self.from_poly(s))); continue
                odd[pid] = rem
        signs = {pid: self.sign_poly(pid) for pid in odd}
        # (constant sign) * unknown factors : put negatives together
        flip = neg
        unknown = {}
        for pid, e in odd.items():
            s = signs[pid]
            if s in ('+', '0+'): res = self.mul(res, self.root_atom(pid, 1, q, e))
            elif s in ('-', '0-') and q == 2:
                if e % 2: flip = not flip
                res = self.mul(res, self.root_atom(pid, -1, q, e))
            else: unknown[pid] = e
        c = abs(a.c)
        if unknown:
            P, d = self.expand(RF(Fraction(-1 if flip else 1), dict(unknown)))
            r = self.from_poly(P)
            # single radicand
            if len(r.f) == 1 and abs(r.c) == 1:
                (pid, e), = r.f.items()
                res = self.mul(res, self.root_atom(pid, int(r.c), q, e))
            else:
                res = self.mul(res, self.root_atom_poly(P, q))
        elif flip:
            raise Blowup('root of a negative quantity')
        num, den = c.numerator, c.denominator
        # c = num*den^(q-1)/den^q
        x, y = self.int_root_split(num * den ** (q - 1), q)
        res = RF(res.c * Fraction(x, den), res.f)
        if y != 1:
            for pr, e in self.factor_int(y).items():
                g = gcd(e, q)
                res = self.mul(res, self.pow(self.root_atom_poly({0: pr}, q // g), e // g))
        return res
    def root_atom(self, pid, sgn, q, e=1):
        p = self.polys[pid]
        if len(p) == 1 and sgn == 1:
            (m, c), = p.items()
            a = self.atoms[mono_items(m)[0][0]]
            if a.kind == 'root' and a.relk > 1:
                # (x^(1/k))^(1/q) = x^(1/(kq))
                return self.pow(self.root_atom_poly(dict(a.data[1]), a.relk * q), e)
            if a.kind == 'root' and a.relk == 1:
                raise Restart()
        r = self.root_atom_poly(p if sgn == 1 else pscale(p, -1), q)
        return self.pow(r, e)
    def root_atom_poly(self, p, q):
        base = frozenset(p.items())
        a = self.rootbase.get(base)
        if a is not None and a.relk % q:
            L = a.relk * q // gcd(a.relk, q)
            if L > 120: raise Blowup('root order %d' % L)
            b = self.atom('root', (L, base), 'root%d' % L, rel=p, relk=L, sign=a.sign)
            self.rootbase[base] = b
            a.rel = {(L // a.relk) << (SH * b.idx): 1}; a.relk = 1
            raise Restart()
        if a is None:
            a = self.atom('root', (q, base), 'root%d' % q, rel=p, relk=q, sign='0+')
            self.rootbase[base] = a
        if a.sign == '0+' and self.polysign_of(p) == '+': a.sign = '+'
        r = self.atom_rf(a)
        return r if a.relk == q else self.pow(r, a.relk // q)

    def polysign_of(self, p):
        if not p: return '0'
        if len(p) > 1 or True:
            c = content(p)
            q = p
            s = 1
            if p[max(p)] < 0: s = -1
            r = self.from_poly(p)
            return self.sign(r)

    def abs(self, a):
        if a.c == 0: return a
        res = RF(abs(a.c), {})
        for pid, e in a.f.items():
            s = self.sign_poly(pid)
            base = RF(Fraction(1), {pid: 1})
            if e % 2 == 0 or s in ('+', '0+', '0'): pass
            elif s in ('-', '0-'): base = self.neg(base)
            else:
                p = self.polys[pid]
                sq = self.reduce(pmul(p, p))
                at = self.atom('abs', frozenset(p.items()), 'abs', rel=sq, relk=2, sign='0+')
                if s == '!0': at.sign = '+'
                base = self.atom_rf(at)
            res = self.mul(res, self.pow(base, e))
        return res

    def factor_int(self, n):
        out = {}
        d = 2
        while d * d <= n and d < 100000:
            while n % d == 0: out[d] = out.get(d, 0) + 1; n //= d
            d += 1
        if n > 1: out[n] = out.get(n, 0) + 1
        return out

    def log(self, a):
        if a.c == 0: raise Blowup('log(0)')
        res = self.ZERO
        unk = {}
        neg = a.c < 0
        for pid, e in a.f.items():
            s = self.sign_poly(pid)
            if s in ('+', '0+'): res = self.add(res, self.scale(self.log_poly(pid, 1), e))
            elif s in ('-', '0-'):
                if e % 2: neg = not neg
                res = self.add(res, self.scale(self.log_poly(pid, -1), e))
            else: unk[pid] = e
        if unk or neg:
            if not unk: raise Blowup('log of a negative quantity')
            if len(unk) == 1:
                (pid, e), = unk.items()
                if abs(e) == 1:
                    # argument of the logarithm must be positive for the term to be defined
                    res = self.add(res, self.scale(self.log_poly(pid, -1 if neg else 1), e))
                else:
                    res = self.add(res, self.ufn('log', [RF(Fraction(-1 if neg else 1), unk)]))
            else:
                res = self.add(res, self.ufn('log', [RF(Fraction(-1 if neg else 1), unk)]))
        c = abs(a.c)
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            for p, e in self.factor_int(n).items():
                at = self.atom('log', ('int', p), 'log%d' % p, sign='+')
                res = self.add(res, self.scale(self.atom_rf(at), s * e))
        return res
    def scale(self, a, k):
        return RF(a.c * k, a.f) if k else self.ZERO
    def log_poly(self, pid, sgn):
        p = self.polys[pid]
        if len(p) == 1:
            (m, c), = p.items()
            a = self.atoms[mono_items(m)[0][0]]
            if a.kind == 'root':
                r = self.log(self.from_poly(a.rel)); return self.scale(r, Fraction(1, a.relk))
            if a.kind == 'exp': return self.exparg(a)
        at = self.atom('log', (pid, sgn), 'log')
        return self.atom_rf(at)
    def exparg(self, a):
        m, den = a.data
        x = RF(Fraction(1), {})
        for i, e in mono_items(m): x = self.mul(x, RF(Fraction(1), {self.reg({1 << (SH * i): 1}): e}))
        return self.mul(RF(Fraction(1, den[1]), {}), self.mul(x, RF(Fraction(1), dict(den[0]))))

    def split_terms(self, a):
        """a as a list of (Fraction c, monomial m, denominator factors tuple)"""
        num = {k: e for k, e in a.f.items() if e > 0}
        den = tuple(sorted((k, e) for k, e in a.f.items() if e < 0))
        P, d = self.expand(RF(a.c, num))
        out = []
        for m, c in P.items(): out.append((Fraction(c, d), m, den))
        return out

    def exp(self, a):
        if a.c == 0: return self.ONE
        res = self.ONE
        for c, m, den in self.split_terms(a):
            it = mono_items(m)
            if not den and len(it) == 1 and it[0][1] == 1 and self.atoms[it[0][0]].kind == 'log':
                at = self.atoms[it[0][0]]
                if at.data[0] == 'int': base = self.const(at.data[1])
                else: base = RF(Fraction(at.data[1]), {at.data[0]: 1})
                res = self.mul(res, self.fracpow(base, c))
                continue
            at = self.atom('exp', (m, (den, c.denominator)), 'exp', sign='+')
            res = self.mul(res, self.pow(self.atom_rf(at), c.numerator))
        return res
    def fracpow(self, base, c):
        """base > 0 single factor, c rational"""
        n = c.numerator // c.denominator
        r = c - n
        res = self.pow(base, n)
        if r:
            res = self.mul(res, self.pow(self.root(base, r.denominator), r.numerator))
        return res
    def powr(self, b, e):
        if not e.f:
            q = e.c
            if q.denominator == 1: return self.pow(b, int(q))
            if q.denominator <= 64:
                # all factors of known sign: b^(n/q) factorwise
                if self.sign(b) in ('+', '0+'):
                    res = self.ONE
                    ok = all(self.sign_poly(pid) in ('+', '0+') for pid in b.f) and b.c > 0
                    if ok:
                        n = q.numerator // q.denominator; r = q - n
                        return self.mul(self.pow(b, n), self.pow(self.root(b, r.denominator), r.numerator))
        return self.exp(self.mul(e, self.log(b)))

    def trig(self, f, a):
        if a.c == 0: return self.ZERO if f == 'sin' else self.ONE
        terms = self.split_terms(a)
        s, c = self.ZERO, self.ONE
        for (cf, m, den) in terms:
            s1, c1 = self.trig1(cf, m, den)
            s, c = self.add(self.mul(s, c1), self.mul(c, s1)), self.sub(self.mul(c, c1), self.mul(s, s1))
        return s if f == 'sin' else c
    def trig1(self, cf, m, den):
        it = mono_items(m)
        if not den and len(it) == 1 and it[0][1] == 1 and self.atoms[it[0][0]].data == '#pi':
            x = cf % 2
            tab = {Fraction(0): (0, 1), Fraction(1, 2): (1, 0), Fraction(1): (0, -1), Fraction(3, 2): (-1, 0)}
            if x in tab: return self.const(tab[x][0]), self.const(tab[x][1])
        if not den and abs(cf) == 1 and len(it) == 1 and it[0][1] == 1 and self.atoms[it[0][0]].kind == 'uf' and self.atoms[it[0][0]].data[0] == 'atan':
            z = self.atoms[it[0][0]].data[1][0]
            z = RF(z[0], dict(z[1]))
            c1 = self.inv(self.root(self.add(self.ONE, self.mul(z, z)), 2))
            s1 = self.mul(z, c1)
            return (self.neg(s1) if cf < 0 else s1), c1
        n = cf.numerator; q = cf.denominator
        k = (m, den, q)
        C = self.atom('cos', k, 'cos')
        one_m = None
        cp = self.atom_poly(C)
        S = self.atom('sin', k, 'sin', rel=padd({0: 1}, pmul(cp, cp), -1), relk=2)
        s1, c1 = self.atom_rf(S), self.atom_rf(C)
        if abs(n) > 12:
            # opaque for large multiples
            k = (m, den, q, abs(n))
            C = self.atom('cos', k, 'cos'); cp = self.atom_poly(C)
            S = self.atom('sin', k, 'sin', rel=padd({0: 1}, pmul(cp, cp), -1), relk=2)
            s, c = self.atom_rf(S), self.atom_rf(C)
        else:
            s, c = self.ZERO, self.ONE
            for _ in range(abs(n)):
                s, c = self.add(self.mul(s, c1), self.mul(c, s1)), self.sub(self.mul(c, c1), self.mul(s, s1))
        if n < 0: s = self.neg(s)
        return s, c

    # ------------------------------------------------------------- signs
    # '+', '0+', '-', '0-', '0', '!0', None
    def sign_poly(self, pid):
        s = self.polysign.get(pid)
        if s in ('+', '-', '0'): return s
        r = self._signcache.get(pid)
        if r is None or r[0] != len(self.polysign):
            v = self.sign_poly1(pid)
            self._signcache[pid] = (len(self.polysign), v)
        else: v = r[1]
        if s is None: return v
        if v is None: return s
        if v in ('+', '-'): return v
        if s == '!0' and v == '0+': return '+'
        if s == '!0' and v == '0-': return '-'
        if v == '!0' and s == '0+': return '+'
        if v == '!0' and s == '0-': return '-'
        return s
    def sign_atom(self, i):
        a = self.atoms[i]
        pid = self.polykey.get(frozenset({1 << (SH * i): 1}.items()))
        s = self.polysign.get(pid) if pid is not None else None
        if a.kind == 'root' and a.sign == '0+' and s is None:
            if self.polysign_of(a.rel) == '+': a.sign = '+'
        if a.kind == 'abs' and a.sign == '0+':
            q = self.polykey.get(a.data)
            if q is not None and self.polysign.get(q) in ('+', '-', '!0'): a.sign = '+'
        if s is None: return a.sign
        if s == '!0' and a.sign == '0+': return '+'
        if a.sign == '+': return '+'
        return s
    def sign_poly1(self, pid):
        p = self.polys[pid]
        if len(p) == 1:
            (m, c), = p.items()
            it = mono_items(m)
            if not it: return '+' if c > 0 else '-'
            return self.sign_atom(it[0][0])
        if len(p) > 300: return None
        pos = neg = False; strict = False
        for m, c in p.items():
            s = self.sign_mono(m)
            if s is None or s == '!0': return self.sos_sign(p)
            if c < 0: s = {'+': '-', '-': '+', '0+': '0-', '0-': '0+'}[s]
            if s[-1] == '+': pos = True
            else: neg = True
            if len(s) == 1: strict = True
            if pos and neg: return self.sos_sign(p)
        if pos: return '+' if strict else '0+'
        return '-' if strict else '0-'
    def sign_mono(self, m):
        r = '+'
        for i, e in mono_items(m):
            s = self.sign_atom(i)
            if e % 2 == 0:
                s = '+' if s in ('+', '-', '!0') else '0+'
            if s is None: return None
            if s == '!0': return None
            if s == '0+': r = {'+': '0+', '-': '0-'}.get(r, r)
            elif s == '-': r = {'+': '-', '-': '+', '0+': '0-', '0-': '0+'}[r]
            elif s == '0-': r = {'+': '0-', '-': '0+', '0+': '0-', '0-': '0+'}[r]
        return r
    def sos_sign(self, p):
        """p == x^2 pattern or p == f + g with known facts"""
        if len(p) <= 60:
            s = self.psqrt(p)
            if s is not None: return '0+'
            s = self.psqrt(pscale(p, -1))
            if s is not None: return '0-'
        return None
    def sign(self, a):
        if a.c == 0: return '0'
        r = '+' if a.c > 0 else '-'
        for pid, e in a.f.items():
            s = self.sign_poly(pid)
            if e % 2 == 0:
                if e < 0: s = '+'
                else: s = '+' if s in ('+', '-', '!0') else '0+' if s != '0' else '0'
            if e < 0 and s in ('0+', '0-'): s = s[1]    # a defined quotient has a nonzero divisor
            if s is None or r is None: r = None; continue
            if s == '0': return '0'
            if s == '!0':
                r = '!0' if r in ('+', '-', '!0') else None; continue
            if r == '!0':
                r = '!0' if s in ('+', '-') else None; continue
            zero = len(r) == 2 or len(s) == 2
            sg = '+' if r[-1] == s[-1] else '-'
            r = ('0' if zero else '') + sg
        return r

    # ------------------------------------------------------------- facts
    def add_facts(self, facts):
        for attempt in range(12):
            self.infacts = True
            try: return self.add_facts1(facts)
            except Restart: self.cache.clear()
            finally: self.infacts = False
    def add_facts1(self, facts):
        self.facts = list(facts)
        # substitutions first
        for f in facts:
            if f.op == 'eq': self.try_subst(f)
        # facts are converted again whenever a sign became known (sqrt(x^2) = x needs x >= 0)
        for _ in range(4):
            self.pending = []; self.rules = []; self.cache.clear()
            ch = False
            for f in facts:
                self.add_fact(f)
                if f.op != 'eq' and self.propagate(): ch = True
            for _ in range(6):
                if not self.propagate(): break
                ch = True
            if not ch: break
    def occurs(self, v, t):
        return any(x is v for x in TM.topo([t]))
    def try_subst(self, f):
        a, b = f.args
        for v, e in ((a, b), (b, a)):
            if v.op == 'v' and v.args[0][0] != '#' and v.id not in self.subst and not self.occurs(v, e):
                try: self.subst[v.id] = self.conv(e)
                except (Blowup, ZeroDivisionError): return
                self.cache.clear()
                return
    def add_fact(self, f):
        if f.op in ('and',):
            for x in f.args: self.add_fact(x)
            return
        if f.op not in ('lt', 'le', 'eq', 'ne'): return
        a, b = f.args
        try:
            d = self.sub(self.conv(b), self.conv(a))
        except (Blowup, ZeroDivisionError, TypeError, AttributeError):
            return
        if f.op == 'eq':
            self.add_rule(d)
        self.pending.append((f.op, d))
        # c < t with c > 0 also gives t > 0;  t < c with c < 0 gives t < 0
        if f.op in ('lt', 'le'):
            if TM.isc(a) and a.args[0] > 0: self.pending.append(('lt', self.conv(b)))
            if TM.isc(b) and b.args[0] < 0: self.pending.append(('lt', self.neg(self.conv(a))))
    def add_rule(self, d):
        if d.c == 0: return
        num = {k: e for k, e in d.f.items() if e > 0}
        P, _ = self.expand(RF(Fraction(d.c.numerator), num))
        P = self.apply_rules(P)
        if not P: return
        # pick an atom of degree 1 (prefer late atoms: logs, applications)
        best = None
        rank = {'uf': 3, 'log': 2, 'v': 1}
        cand = set()
        for m in P:
            for i, e in mono_items(m): cand.add(i)
        for i in cand:
            a = self.atoms[i]
            if a.kind not in rank: continue
            if any(mono_exp(m, i) > 1 for m in P): continue
            # does another atom depend on it?  (variables may occur inside logs) - only completeness
            k = (rank[a.kind], -i)
            coeff = {m - (1 << (SH * i)): c for m, c in P.items() if mono_exp(m, i) == 1}
            rest = {m: c for m, c in P.items() if mono_exp(m, i) == 0}
            s = self.polysign_of(coeff)
            if s not in ('+', '-', '!0'): continue
            if best is None or k > best[0]: best = (k, i, coeff, rest)
        if best: self.rules.append(best[1:])
    def apply_rules(self, P):
        for (i, coeff, rest) in self.rules:
            K = max((mono_exp(m, i) for m in P), default=0)
            if K == 0: continue
            groups = {}
            for m, c in P.items():
                e = mono_exp(m, i)
                groups.setdefault(e, {})[m - (e << (SH * i))] = c
            r = {}
            nrest = pscale(rest, -1)
            for e, g in groups.items():
                w = g
                for _ in range(e): w = pmul(w, nrest)
                for _ in range(K - e): w = pmul(w, coeff)
                r = padd(r, w)
            P = self.reduce(r)
        return P
    def propagate(self):
        ch = False
        for op, d in self.pending:
            if d.c == 0: continue
            unk = [(pid, e) for pid, e in d.f.items() if self.sign_poly(pid) not in ('+', '-')]
            if op == 'ne':
                for pid, e in unk:
                    if self.polysign.get(pid) is None and self.sign_poly(pid) is None:
                        self.polysign[pid] = '!0'; ch = True
                    elif self.sign_poly(pid) in ('0+', '0-'):
                        self.polysign[pid] = self.sign_poly(pid)[1]; ch = True
                continue
            if op == 'eq':
                pos = [u for u in unk if u[1] > 0]
                if len(pos) == 1: self.polysign[pos[0][0]] = '0'
                continue
            # d > 0 (lt) or d >= 0 (le)
            odd = [u for u in unk if u[1] % 2]
            if len(odd) == 1:
                pid, e = odd[0]
                r = 1 if d.c > 0 else -1
                for q, ee in d.f.items():
                    if q != pid and ee % 2 and self.sign_poly(q) == '-': r = -r
                old = self.polysign.get(pid)
                if op == 'lt': s = '+' if r > 0 else '-'
                else:
                    s = '0+' if r > 0 else '0-'
                    if e < 0: s = s[1]
                    cur = self.sign_poly(pid)
                    if cur == '!0': s = s[1]
                    elif cur is not None: s = None
                    # other even unknown factors may vanish: then no information
                    if any(u[1] % 2 == 0 and u[1] > 0 for u in unk): s = None
                if s and old != s:
                    self.polysign[pid] = s; ch = True
            if op == 'lt':
                for pid, e in unk:
                    if e % 2 == 0 and self.polysign.get(pid) is None and self.sign_poly(pid) is None:
                        self.polysign[pid] = '!0'; ch = True
        return ch

    # ---------------------------------------------------------- zero test
    def is_zero(self, t):
        return self.rf_is_zero(self.conv(t))
    def rf_is_zero(self, r):
        if r.c == 0: return True
        if not self.rules:
            return any(e > 0 and self.polysign.get(k) == '0' for k, e in r.f.items())
        for pid, e in r.f.items():
            if e > 0:
                if not self.apply_rules(self.polys[pid]): return True
        return False
