"""Discharges obligations: exact normal forms first, then z3 / cvc5."""
import time, math, random, subprocess, os, tempfile
from fractions import Fraction
from . import terms as TM
from .terms import Term
from .nf import NF, Blowup, RF
from . import lincert, closed
import z3

class Timeout(Exception): pass
import signal
class alarm:
    def __init__(self, s): self.s = s
    def __enter__(self):
        def h(sig, fr): raise Timeout()
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.s)
    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)

class Z3Tr:
    def __init__(self):
        self.c = {}
        self.side = []
        self.ufs = {}
        self.n = 0
        self.fnapps = {}
    def tr(self, t):
        for x in TM.topo([t], set()):
            if x.id not in self.c: self.c[x.id] = self.tr1(x)
        return self.c[t.id]
    def tr1(self, t):
        o = t.op
        a = [self.c[x.id] if isinstance(x, Term) else x for x in t.args]
        if o == 'c': return z3.RealVal('%d/%d' % (t.args[0].numerator, t.args[0].denominator))
        if o == 'v':
            v = z3.ToReal(z3.Int(t.args[0])) if t.args[1] == 'I' else z3.Real(t.args[0])
            if t.args[0] == '#pi': self.side += [v > z3.RealVal('3.14159265358979'), v < z3.RealVal('3.14159265358980')]
            if t.args[0] == '#e': self.side += [v > z3.RealVal('2.71828182845904'), v < z3.RealVal('2.71828182845905')]
            return v
        if o == 'bv': return z3.Bool(t.args[0])
        if o == '+': return a[0] + a[1]
        if o == '*': return a[0] * a[1]
        if o == 'neg': return -a[0]
        if o == '/':
            q = self.fresh(); self.side.append(z3.Implies(a[1] != 0, q * a[1] == a[0])); return q
        if o == 'ipow':
            n = t.args[1]
            if n >= 0: return self.ipow(a[0], n)
            q = self.fresh(); self.side.append(z3.Implies(a[0] != 0, q * self.ipow(a[0], -n) == 1)); return q
        if o == 'max': return z3.If(a[0] >= a[1], a[0], a[1])
        if o == 'min': return z3.If(a[0] <= a[1], a[0], a[1])
        if o == 'fn':
            n = t.args[0]; a = a[1:]
            if n == 'abs': return z3.If(a[0] >= 0, a[0], -a[0])
            if n == 'sqrt':
                q = self.fresh(); self.side.append(z3.Implies(a[0] >= 0, z3.And(q >= 0, q * q == a[0]))); return q
            if n == 'trunc':
                i = z3.Int('trunc!%d' % t.id)
                r = z3.ToReal(i)
                self.side.append(z3.Implies(a[0] >= 0, z3.And(r <= a[0], a[0] < r + 1)))
                self.side.append(z3.Implies(a[0] < 0, z3.And(r >= a[0], a[0] > r - 1)))
                return r
            f = self.ufs.get((n, len(a)))
            if f is None:
                f = z3.Function('u_' + n, *([z3.RealSort()] * (len(a) + 1))); self.ufs[(n, len(a))] = f
            r = f(*a)
            if n == 'exp': self.side.append(r > 0)
            if n in ('sin', 'cos'): self.side += [r <= 1, r >= -1]
            if n in ('log', 'exp'):
                for (y, s) in self.fnapps.get(n, []):
                    self.side.append((a[0] < y) == (r < s) if n == 'exp' else z3.Implies(z3.And(a[0] > 0, y > 0), (a[0] < y) == (r < s)))
                self.fnapps.setdefault(n, []).append((a[0], r))
                if n == 'log': self.side.append(z3.Implies(a[0] > 0, z3.And((a[0] > 1) == (r > 0), (a[0] < 1) == (r < 0))))
                else: self.side.append(r >= 1 + a[0])
            if n == 'pow': self.side.append(z3.Implies(a[0] > 0, r > 0))
            return r
        if o in ('idiv', 'imod'):
            x = z3.ToInt(a[0]); y = z3.ToInt(a[1])
            # C truncation
            q = z3.If(x >= 0, x / y, -((-x) / y))
            if TM.isc(t.args[1]) and t.args[1].args[0] < 0: q = z3.If(x >= 0, -(x / (-y)), (-x) / (-y))
            return z3.ToReal(q if o == 'idiv' else x - q * y)
        if o == 'ifloordiv':
            return z3.ToReal(z3.ToInt(a[0]) / z3.ToInt(a[1]))
        if o == 'lt': return a[0] < a[1]
        if o == 'le': return a[0] <= a[1]
        if o == 'eq': return a[0] == a[1]
        if o == 'ne': return a[0] != a[1]
        if o == 'not': return z3.Not(a[0])
        if o == 'and': return z3.And(a[0], a[1])
        if o == 'or': return z3.Or(a[0], a[1])
        if o == 'true': return z3.BoolVal(True)
        if o == 'false': return z3.BoolVal(False)
        if o == 'av': return z3.Array(t.args[0], z3.RealSort(), z3.RealSort())
        if o == 'select': return z3.Select(a[0], a[1])
        if o == 'store': return z3.Store(a[0], a[1], a[2])
        if o == 'forall':
            v = a[0]; return z3.ForAll([z3.Real(t.args[0].args[0])], a[1])
        raise Blowup('z3: ' + o)
    def fresh(self):
        self.n += 1
        return z3.Real('q!%d' % self.n)
    def ipow(self, x, n):
        r = None
        for _ in range(n): r = x if r is None else r * x
        return r if r is not None else z3.RealVal(1)

STATS = {'nf': 0, 'z3': 0, 'cvc5': 0, 'const': 0, 'nf_s': 0.0, 'z3_s': 0.0, 'cvc5_s': 0.0}

def relevant(pc, roots):
    """facts sharing variables (transitively) with roots"""
    vs = set(x.id for x in TM.free_vars(roots))
    rest = list(pc); out = []
    ch = True
    fv = {f.id: set(x.id for x in TM.free_vars([f])) for f in rest}
    while ch:
        ch = False
        for f in list(rest):
            if fv[f.id] & vs or not fv[f.id]:
                vs |= fv[f.id]; out.append(f); rest.remove(f); ch = True
    return out

def z3_prove(pc, goal, timeout, want_model=False):
    """True if pc |- goal; False if z3 has a model of the negation; None unknown"""
    t0 = time.time()
    try:
        tr = Z3Tr()
        facts = [f for f in pc]
        s = z3.Solver()
        s.set('timeout', int(timeout * 1000))
        fs = [tr.tr(f) for f in facts]
        g = tr.tr(goal)
        for f in fs: s.add(f)
        s.add(z3.Not(g))
        for f in tr.side: s.add(f)
        r = s.check()
        if r == z3.unsat: return (True, None)
        if r == z3.sat:
            return (False, s.model() if want_model else None)
        return (None, s)
    except (Blowup, z3.Z3Exception):
        return (None, None)
    finally:
        STATS['z3_s'] += time.time() - t0

def cvc5_prove(solver, timeout):
    t0 = time.time()
    try:
        txt = solver.to_smt2()
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % int(timeout * 1000)], input='(set-logic ALL)\n' + txt,
                           capture_output=True, text=True, timeout=timeout + 5)
        return p.stdout.strip().startswith('unsat')
    except Exception:
        return False
    finally:
        STATS['cvc5_s'] += time.time() - t0

CUTS = ((None, 0), (('+', 'fn'), 0), (('+', 'fn'), 14))
def cut_shared(a, b, pc, ops=None, size=0):
    """replaces the maximal subterms that occur in both a and b (of the operations in ops) by fresh variables, in a, b and pc:
    a generalisation of the goal, so a proof of the result proves the original"""
    A = {t.id for t in TM.topo([a], set())}; B = {t.id for t in TM.topo([b], set())}
    share = {t.id for t in TM.topo([a], set()) if t.id in B and t.op not in ('c', 'v', 'neg') and not t.closed and (ops is None or t.op in ops)}
    share -= {a.id, b.id}
    if size:     # small sums stay as they are
        share = {t.id for t in TM.topo([a], set()) if t.id in share and len(TM.topo([t], set())) >= size}
    if not share: return None
    memo = {}
    def go(roots):
        st = list(roots)
        while st:
            t = st[-1]
            if t.id in memo: st.pop(); continue
            if t.id in share: memo[t.id] = TM.var('#cut%d' % t.id); st.pop(); continue
            todo = [x for x in t.args if isinstance(x, Term) and x.id not in memo]
            if todo: st += todo; continue
            n = [memo[x.id] if isinstance(x, Term) else x for x in t.args]
            memo[t.id] = t if all(x is y for x, y in zip(n, t.args)) else TM._mk(t.op, *n)
            st.pop()
    go([a, b]); go(pc)
    return memo[a.id], memo[b.id], [memo[f.id] for f in pc]

def opaque(fs):
    """every sum and every function value below products and quotients replaced by a variable (a generalisation);
    square roots and absolute values stay nonnegative"""
    memo = {}
    side = []
    def go(t):
        r = memo.get(t.id)
        if r is not None: return r
        o = t.op
        if o in ('+', 'fn') and not t.closed:
            r = TM.var('#op%d' % t.id)
            if o == 'fn' and t.args[0] in ('sqrt', 'abs'): side.append(TM.cmp('le', TM.ZERO, r))
        elif o in ('*', '/', 'neg', 'lt', 'le', 'eq', 'ne', 'not', 'and', 'or'):
            n = [go(x) for x in t.args]
            r = t if all(x is y for x, y in zip(n, t.args)) else TM._mk(o, *n)
        else: r = t
        memo[t.id] = r
        return r
    r = [go(f) for f in fs]
    return r[0], r[1:] + side

def affine_groups(a, b):
    """sets of variables in which a - b is (syntactically) affine, one set per array of inputs"""
    by = {}
    for v in TM.free_vars([a, b]):
        if v.op == 'v' and not v.closed: by.setdefault(v.args[0].split('[')[0], []).append(v)
    return [g for g in by.values() if max(TM.degree([a, b], {v.id for v in g})) == 1]

def affine_cases(a, b, g):
    """a = b for all values of the variables g, in which both sides are affine, if and only if the two sides agree
    when they all vanish and when one of them is 1 and the rest vanish"""
    for k in [None] + g:
        r = TM.subst([a, b], {v.id: TM.ONE if v is k else TM.ZERO for v in g})
        if r[0] is None or r[1] is None: raise Blowup('substitution')
        yield r

class Prover:
    def __init__(self, ztime=10, nftime=60, numeric=True, seed=1):
        self.nfs = {}
        self.ztime = ztime; self.nftime = nftime
        self.rng = random.Random(seed)
        self.samples = {}
        self.dead = []      # sets of facts shown to be contradictory

    def nf(self, pc):
        k = tuple(f.id for f in pc)
        r = self.nfs.get(k)
        if r is None:
            if len(self.nfs) > 40: self.nfs.clear()
            r = NF(pc); self.nfs[k] = r
        return r

    def prove(self, ob):
        """returns (status, backend, detail) status in proved/failed/unknown"""
        k = ob.kind
        if k == 'eq': goal = TM.cmp('eq', ob.a, ob.b)
        elif k == 'le': goal = TM.cmp('le', ob.a, ob.b)
        elif k == 'lt': goal = TM.cmp('lt', ob.a, ob.b)
        elif k == 'bool': goal = ob.a
        elif k == 'fail': goal = TM.FALSE
        else: raise Exception(k)
        for v in TM.free_vars([goal]):
            if v is TM.UNDEF: return ('failed', 'nf', 'depends on an uninitialised value')
        if goal.poison: return ('failed', 'nf', 'depends on a division by zero')
        return self.prove_goal(ob.pc, goal)

    def prove_goal(self, pc, goal, depth=0):
        if goal is TM.TRUE: STATS['const'] += 1; return ('proved', 'const', '')
        if any(f is goal for f in pc): STATS['const'] += 1; return ('proved', 'const', '')
        if self.dead:
            k = {f.id for f in pc}
            if any(d <= k for d in self.dead): STATS['z3'] += 1; return ('proved', 'z3', 'path infeasible')
        if goal.op == 'and':
            b = []
            for g in goal.args:
                r = self.prove_goal(pc, g, depth)
                if r[0] != 'proved': return r
                b.append(r[1])
            return ('proved', max(b), '')
        detail = ''
        if goal.closed and goal.op in ('eq', 'le', 'lt', 'ne'):
            r = closed.decide(goal.op, *goal.args)
            if r: STATS['const'] += 1; return ('proved', 'const', 'interval evaluation')
            if r is False: goal = TM.FALSE; detail = 'false by interval evaluation'
        if len(pc) > 40 and goal is not TM.FALSE:     # many facts: solver first
            r, m = z3_prove(relevant(pc, [goal]), goal, 0.7)
            if r: STATS['z3'] += 1; return ('proved', 'z3', '')
        if goal.op == 'eq' and depth < 6:      # a minimum or maximum on one side only: the facts may say which branch it is
            m = [any(t.op in ('max', 'min') for t in TM.topo([g], set())) for g in goal.args]
            if m[0] != m[1]:
                c = self.clamp_goal(pc, goal, depth, split=False)
                if c: return c
        if goal.op == 'eq' and len(TM.topo(list(goal.args), set())) > 150:
            t0 = time.time()
            r = None
            late = []
            for ops in CUTS:
                c = cut_shared(*goal.args, pc, *ops)
                if c is None: continue
                try:
                    with alarm(4):
                        nf = NF(c[2]); r = nf.rf_is_zero(self.nf_diff(nf, c[0], c[1]))
                except Timeout: r = None; late.append(c)
                except (Blowup, ZeroDivisionError, RecursionError, MemoryError): r = None
                if r: break
            for c in () if r else late:     # the machine may be busy
                try:
                    with alarm(25):
                        nf = NF(c[2]); r = nf.rf_is_zero(self.nf_diff(nf, c[0], c[1]))
                except (Blowup, ZeroDivisionError, RecursionError, Timeout, MemoryError): r = None
                if r: break
            STATS['nf_s'] += time.time() - t0
            if r: STATS['nf'] += 1; return ('proved', 'nf', 'shared subterms generalised')
        if goal.op == 'eq' and len(TM.topo(list(goal.args), set())) > 600:
            t0 = time.time()
            try:
                with alarm(self.nftime): r = self.affine_goal(pc, *goal.args)
            except (Blowup, ZeroDivisionError, RecursionError, Timeout, MemoryError): r = None; self.nfs.clear()
            STATS['nf_s'] += time.time() - t0
            if r: STATS['nf'] += 1; return ('proved', 'nf', 'split by affine inputs')
        if goal.op in ('eq', 'le', 'lt', 'ne'):
            t0 = time.time()
            try:
                with alarm(self.nftime):
                    r = self.nf_goal(pc, goal)
            except (Blowup, ZeroDivisionError, RecursionError, Timeout, MemoryError) as e:
                r = None; detail = 'normal form: %s %s' % (type(e).__name__, e)
                self.nfs.clear()
            STATS['nf_s'] += time.time() - t0
            if r: STATS['nf'] += 1; return ('proved', 'nf', '')
        facts = relevant(pc, [goal]) if goal is not TM.FALSE else pc
        if goal.op == 'eq' and sum(f.op == 'eq' for f in facts) >= 4:
            r, m = z3_prove(facts, goal, 0.5)
            if r: STATS['z3'] += 1; return ('proved', 'z3', '')
            t0 = time.time()
            try:
                with alarm(60): r = self.lincert_goal(facts, goal)
            except (Blowup, ZeroDivisionError, RecursionError, Timeout, MemoryError): r = None
            STATS['nf_s'] += time.time() - t0
            if r: STATS['nf'] += 1; return ('proved', 'nf', '')
        r, m = z3_prove(facts, goal, self.ztime)
        if r: STATS['z3'] += 1; return ('proved', 'z3', '')
        if r is None and m is not None and goal is not TM.FALSE:
            if cvc5_prove(m, self.ztime): STATS['cvc5'] += 1; return ('proved', 'cvc5', '')
        if goal.op in ('eq', 'le', 'lt') and depth < 6:
            c = self.clamp_goal(pc, goal, depth)
            if c: return c
        if goal is not TM.FALSE:
            r2, _ = z3_prove(pc, TM.FALSE, min(2, self.ztime))
            if r2: STATS['z3'] += 1; self.dead.append(frozenset(f.id for f in pc)); return ('proved', 'z3', 'path infeasible')
        return ('failed' if r is False else 'unknown', 'z3', detail or ('model of the negation' if r is False else 'not proved'))

    def known_sign(self, pc, a, b):
        """'<=' or '>=' when a fact compares terms with the difference of a and b, else None"""
        nf = None
        for f in pc:
            neg = f.op == 'not'
            g = f.args[0] if neg else f
            if g.op not in ('lt', 'le'): continue
            x, y = g.args
            if x is a and y is b: return '>=' if neg else '<='
            if x is b and y is a: return '<=' if neg else '>='
        va = {v.id for v in TM.free_vars([a, b])}
        for f in pc:
            neg = f.op == 'not'
            g = f.args[0] if neg else f
            if g.op not in ('lt', 'le') or len(TM.topo([g], set())) > 400: continue
            x, y = g.args
            vf = {v.id for v in TM.free_vars([x, y])}
            if not (va <= vf or vf <= va): continue
            try:
                with alarm(4):
                    if nf is None: nf = self.nf(pc)
                    d = self.nf_diff(nf, a, b); e = self.nf_diff(nf, x, y)
                    if nf.rf_is_zero(nf.sub(d, e)): return '>=' if neg else '<='
                    if nf.rf_is_zero(nf.add(d, e)): return '<=' if neg else '>='
            except (Blowup, ZeroDivisionError, RecursionError, Timeout, MemoryError): self.nfs.clear(); nf = None
        return None

    def known_value(self, pc, t):
        """the constant an equation that is linear in the term t gives it"""
        for f in pc:
            if f.op != 'eq' or not any(x is t for x in TM.topo([f], set())): continue
            m = TM.var('#m%d' % t.id)
            l = TM.subst(list(f.args), {t.id: m})
            if l[0] is None or l[1] is None or max(TM.degree(l, {m.id})) != 1: continue
            try:
                with alarm(4):
                    nf = self.nf([g for g in pc if g is not f])
                    v = [self.nf_diff(nf, *TM.subst(l, {m.id: c})) for c in (TM.ZERO, TM.ONE)]
                    p = nf.sub(v[0], v[1])
                    if nf.sign(p) not in ('+', '-', '!0'): continue
                    q = nf.mul(v[0], nf.inv(p))
                    if nf.rf_is_zero(v[0]): return TM.ZERO
                    if not q.f: return TM.const(q.c)
            except (Blowup, ZeroDivisionError, RecursionError, Timeout, MemoryError): self.nfs.clear()
        return None

    def clamp_goal(self, pc, goal, depth, split=True):
        """resolves an innermost minimum or maximum of the goal by the facts, or by cases"""
        ms = [t for t in TM.topo([goal], set()) if t.op in ('max', 'min')]
        if not ms: return None
        t = ms[0]
        for t in ms:
            u = self.known_value(pc, t)
            if u is None: continue
            g = TM.subst([goal] + list(pc), {t.id: u})
            if g[0] is None: continue
            r = self.prove_goal([y if y is not None else f for y, f in zip(g[1:], pc)], g[0], depth + 1)
            return r if r[0] == 'proved' else None
        t = ms[0]
        a, b = t.args
        k = self.known_sign(pc, a, b)
        small = {'<=': a, '>=': b}
        def side(k): return small[k] if t.op == 'min' else (b if k == '<=' else a)
        def put(u): return TM.subst([goal], {t.id: u})[0]
        if put(a) is None: return None
        if k:
            r = self.prove_goal(pc, put(side(k)), depth + 1)
            return r if r[0] == 'proved' else None
        if not split or depth > 3: return None
        for k, f in (('<=', TM.cmp('le', a, b)), ('>=', TM.cmp('le', b, a))):
            r = self.prove_goal(list(pc) + [f], put(side(k)), depth + 1)
            if r[0] != 'proved': return None
        return r

    def affine_goal(self, pc, a, b):
        """proves a = b case by case in the inputs both sides are affine in, using only facts free of them"""
        gs = affine_groups(a, b)
        if not gs: return None
        ids = {v.id for g in gs for v in g}
        pc = [f for f in pc if not any(v.id in ids for v in TM.free_vars([f]))]
        def go(a, b, gs):
            if a is b: return True
            if gs:
                if max(TM.degree([a, b], {v.id for v in gs[0]})) == 0: return go(a, b, gs[1:])
                return all(go(x, y, gs[1:]) for x, y in affine_cases(a, b, gs[0]))
            for ops in CUTS:
                c = cut_shared(a, b, pc, *ops)
                if c is None: continue
                try:
                    nf = NF(c[2])
                    if nf.rf_is_zero(self.nf_diff(nf, c[0], c[1])): return True
                except (Blowup, ZeroDivisionError): pass
            nf = self.nf(pc)
            return nf.rf_is_zero(self.nf_diff(nf, a, b))
        return go(a, b, gs)

    def nf_goal(self, pc, goal):
        nf = self.nf(pc)
        a, b = goal.args
        if goal.op == 'eq':
            d = self.nf_diff(nf, a, b)
            return nf.rf_is_zero(d)
        d = nf.sub(nf.conv(b), nf.conv(a))
        s = nf.sign(d)
        if goal.op == 'le': return s in ('+', '0+', '0')
        if goal.op == 'lt': return s == '+'
        if goal.op == 'ne': return s in ('+', '-', '!0')
        return False
    def lincert_goal(self, pc, goal):
        nf = NF([f for f in pc if f.op != 'eq'])
        def num(t):
            d = self.nf_diff(nf, t.args[0], t.args[1])
            if d.c == 0: return {}
            return nf.expand(RF(Fraction(d.c.numerator), {k: e for k, e in d.f.items() if e > 0}))[0]
        return lincert.prove(num(goal), [num(f) for f in pc if f.op == 'eq'])
    def nf_diff(self, nf, a, b):
        return nf.sub(nf.conv(a), nf.conv(b))

    # oracle for branch decisions
    def oracle(self, c, pc):
        if c.op == 'bv': return None
        if c.closed and c.op in ('eq', 'le', 'lt', 'ne'):
            r = closed.decide(c.op, *c.args)
            if r is not None: return r
        if c.op not in ('lt', 'le', 'eq', 'ne'): 
            r, _ = z3_prove(pc, c, 0.5)
            if r: return True
            r, _ = z3_prove(pc, TM.bnot(c), 0.5)
            if r: return False
            return None
        if len(TM.topo([c], set())) > 20:
            c1, f1 = opaque([c] + list(pc))
            f1 = relevant(f1, [c1])
            if f1 and len(f1) < 60:
                r, _ = z3_prove(f1, c1, 0.3)
                if r: return True
                if r is False:
                    r, _ = z3_prove(f1, TM.bnot(c1), 0.3)
                    if r: return False
        if len(pc) > 40:
            facts = relevant(pc, [c])
            r, _ = z3_prove(facts, c, 0.3)
            if r: return True
            r2, _ = z3_prove(facts, TM.bnot(c), 0.3)
            if r2: return False
            if r is False and r2 is False: return None
        try:
            with alarm(5):
                nf = self.nf(pc)
                a, b = c.args
                d = nf.sub(nf.conv(b), nf.conv(a))
                if nf.rf_is_zero(d): s = '0'
                else: s = nf.sign(d)
                if c.op == 'lt':
                    if s == '+': return True
                    if s in ('-', '0-', '0'): return False
                elif c.op == 'le':
                    if s in ('+', '0+', '0'): return True
                    if s == '-': return False
                elif c.op == 'eq':
                    if s == '0': return True
                    if s in ('+', '-', '!0'): return False
                elif c.op == 'ne':
                    if s == '0': return False
                    if s in ('+', '-', '!0'): return True
        except (Blowup, ZeroDivisionError, Timeout, RecursionError):
            self.nfs.clear()
        facts = relevant(pc, [c])
        r, _ = z3_prove(facts, c, 0.5)
        if r: return True
        r, _ = z3_prove(facts, TM.bnot(c), 0.5)
        if r: return False
        return None
