"""Loops with symbolic trip counts: invariants instead of unrolling.

A loop whose exit test stays symbolic after a few iterations is cut at its
header: the cells the body changes are havocked, a set of candidate invariants
is assumed, the body is executed once, and every candidate must hold on entry
and be preserved (Houdini: candidates that are not are removed and the harness
is executed again, until all remaining ones are inductive).  Candidates come
from templates over the changed cells, loop-constant cells, the harness inputs
and, where the harness supplies one, a ghost invariant function.  Nothing here
depends on the names or the shape of the loop in the source."""
import os, time
from . import terms as TM
from .terms import Term, const
from . import execir as X

class NeedAbstraction(Exception):
    def __init__(self, key): self.key = key

class LoopInfo:
    def __init__(self):
        self.M = set(); self.dropped = set(); self.seen = set(); self.grew = False
        self.hold = set(); self.bounds = {}; self.backs = 0; self.variants = None
        self.pruned = set(); self.prunedc = set()

def cfg(fn):
    """headers -> set of body blocks (natural loops over retreating edges)"""
    if hasattr(fn, '_loops'): return fn._loops
    succ = {}
    for l in list(fn.blocks):
        blk = fn.block(l); s = []
        for ins in blk:
            if ins[0] == 'br': s += [ins[3], ins[4]]
            elif ins[0] == 'jmp': s.append(ins[2])
            elif ins[0] == 'switch': s += [ins[4]] + [x for _, x in ins[5]]
            elif ins[0] == 'call' and ins[5] is not None: s += [ins[5], ins[6]]
        succ[l] = [x for x in s if x is not None]
    pred = {}
    for a, bs in succ.items():
        for b in bs: pred.setdefault(b, []).append(a)
    start = fn.entry
    if not fn.blocks[start]: start = list(fn.blocks)[1]
    color = {}; back = []
    st = [(start, iter(succ.get(start, [])))]; color[start] = 1
    while st:
        n, it = st[-1]
        for m in it:
            if color.get(m, 0) == 0:
                color[m] = 1; st.append((m, iter(succ.get(m, [])))); break
            elif color[m] == 1: back.append((n, m))
        else:
            color[n] = 2; st.pop()
    loops = {}
    for u, h in back:
        body = loops.setdefault(h, {h})
        w = [u]
        while w:
            x = w.pop()
            if x in body: continue
            body.add(x); w += pred.get(x, [])
    fn._loops = loops
    return loops

class LoopExecutor(X.Executor):
    UNROLL = 4
    tracing = False
    def __init__(self, *a, prove=None, invfn=None, terminate=False, noabs=False, **k):
        X.Executor.__init__(self, *a, **k)
        self.prove = prove; self.invfn = invfn; self.terminate = terminate; self.noabs = noabs
        self.abs = {}
        self.rounds = 0
        if self.oracle:
            orc = self.oracle; memo = {}
            def cached(c, pc):
                k = (c.id,) + tuple(f.id for f in pc)
                if k not in memo: memo[k] = orc(c, pc)
                return memo[k]
            self.oracle = cached
        self.traces = None; self.pcache = {}; self.debug = 'VP_DEBUG' in os.environ; self.t0 = time.time()

    def start(self, dec):
        X.Executor.start(self, dec)
        self.ctype = {}; self.okey = {}; self.oseq = {}
        self.collect = None

    # ------------------------------------------------- naming of cells
    def alloc(self, size, name, kind):
        o = X.Executor.alloc(self, size, name, kind)
        k = (kind if kind not in ('global-init', 'global') else 'g', name, len(self.stack) if kind == 'stack' else 0)
        lst = self.oseq.setdefault(k, [])
        for n, oid in enumerate(lst):       # names of dead objects are used again
            if not self.objs[oid].live: lst[n] = o.id; break
        else: n = len(lst); lst.append(o.id)
        self.okey[o.id] = k + (n,)
        return o
    def store(self, p, t, v):
        if isinstance(p, X.Ptr) and t[0] in ('double', 'i', 'ptr'): self.ctype[p] = t[0] if t[0] != 'i' else ('b' if t[1] <= 8 and (t[1] == 1 or (isinstance(v, Term) and TM.isbool(v))) else 'i')
        X.Executor.store(self, p, t, v)
    def memcpy(self, d, s, n):
        if isinstance(n, int) and isinstance(d, X.Ptr) and isinstance(s, X.Ptr) and isinstance(d[1], int) and isinstance(s[1], int) and n <= 4096:
            for i in range(n):
                k = self.ctype.get(X.Ptr(s[0], s[1] + i))
                if k: self.ctype[X.Ptr(d[0], d[1] + i)] = k
        X.Executor.memcpy(self, d, s, n)

    # ------------------------------------------------------- headers
    def exec_body(self, name, args):
        return X.Executor.exec_body(self, name, args)
    def enter_block(self, fr, label):
        X.Executor.enter_block(self, fr, label)
        body = cfg(fr.fn).get(label)
        if body is None: return label
        if not hasattr(fr, 'lv') : fr.lv = {}
        inside = fr.prev in body
        if self.tracing: return self.trace_header(fr, label, inside)
        key = (tuple(f.fn.name for f in self.stack), label)
        st = fr.lv.get(label)
        if key in self.abs:
            if not inside or st is None or st[0] != 'A':
                if inside: raise X.EngineError('loop entered in the middle')
                fr.lv[label] = ('A', self.cut(key, fr))
            else:
                self.back(key, st[1], fr)
            return label
        if not inside or st is None:
            fr.lv[label] = ['U', 0, self.dpos]
            return label
        # count iterations whose exit test forked
        if self.dpos > st[2]: st[1] += 1
        st[2] = self.dpos
        if st[1] >= self.UNROLL: raise NeedAbstraction(key)
        return label

    # ------------------------------------------------------- cutting
    def cells_of(self, oids=None):
        out = {}
        for oid, o in self.objs.items():
            if not o.live: continue
            out[oid] = (dict(o.cells), o.arr[2] if o.arr is not None else None)
        return out
    def ck(self, oid, off): return self.okey[oid] + (off,)
    def find(self):
        return {self.okey[oid]: oid for oid in self.objs if self.objs[oid].live}
    def asreal(self, v, n, ty):
        if isinstance(v, Term): return v
        if isinstance(v, int):
            if ty == 'double': return self.coerce(v, X.DOUBLE, 8)
            return const(X.sgn(v, 8 * n))
        return None
    def kind(self, oid, off, c):
        ty = self.ctype.get(X.Ptr(oid, off))
        v = c[1]
        if ty == 'double': return 'R'
        if ty == 'b': return 'B'
        if ty == 'i': return 'I'
        if isinstance(v, int): return 'I'
        if isinstance(v, Term): return 'B' if TM.isbool(v) else 'R'
        return 'P'
    def cut(self, key, fr):
        L = self.abs[key]
        idx = self.find()
        ent = {}; kinds = {}
        for ck in sorted(L.M, key=repr):
            if ck[:-1] not in idx: continue
            o = self.objs[idx[ck[:-1]]]
            if not o.live: continue
            off = ck[-1]
            if off == '#arr': continue
            if o.kind == 'global-init': self.init_global(o)
            c = o.cells.get(off)
            if c is None: continue
            k = self.kind(o.id, off, c)
            ent[ck] = (o.id, c[0], c[1]); kinds[ck] = k
        # loop constants usable as bounds
        consts = {}; ckind = {}
        for name, t in self.inputidx.items(): consts[('in', name)] = t; ckind[('in', name)] = 'I' if t.args[1] == 'I' else 'R'
        lits = {}
        for oid, o in self.objs.items():
            if not o.live or o.kind in ('global', 'global-init', 'extern'): continue
            for off, c in list(o.cells.items()):
                ck = self.ck(oid, off)
                if ck in L.M: continue
                if isinstance(c[1], Term) and TM.isc(c[1]) and self.ctype.get(X.Ptr(oid, off)) == 'double' and c[1].args[0] != 0 and len(lits) < 16: lits[c[1].args[0]] = c[1]
                if isinstance(c[1], Term) and not TM.isbool(c[1]) and not TM.isc(c[1]) and len(consts) < 40:
                    if not any(t is c[1] for t in consts.values()): consts[('cell', ck)] = c[1]; ckind[('cell', ck)] = self.kind(oid, off, c)
        for q, t in lits.items(): consts[('lit', q)] = t; ckind[('lit', q)] = 'R'
        E = {ck: self.asreal(v, n, 'double' if kinds[ck] == 'R' else 'i') for ck, (oid, n, v) in ent.items() if kinds[ck] in 'RI'}
        kk = {ck: kinds[ck] for ck in E}
        ctx = dict(E=E, kinds=kk, consts=consts, ckind=ckind, ent=ent)
        if not self.tracing: self.prune(key, L, ctx, E)
        for cid, t in self.cands(L, ctx, E):
            L.seen.add(cid)
            self.emit('loop invariant on entry', 'bool', t, None, {'inv': (key, cid), 'implicit': True})
        # havoc
        V = {}
        for ck, (oid, n, v) in ent.items():
            o = self.objs[oid]; off = ck[-1]; k = kinds[ck]
            self.fresh += 1
            nm = '~loop%d' % self.fresh
            if k == 'P': raise X.EngineError('loop changes a pointer: %r' % (ck,))
            if k == 'R': x = TM.var(nm); V[ck] = x
            elif k == 'I': x = TM.var(nm, 'I'); V[ck] = x; 
            else: x = TM.bvar(nm)
            if k == 'I':
                self.assume(TM.cmp('le', const(-(1 << (8 * n - 1))), x)); self.assume(TM.cmp('lt', x, const(1 << (8 * n - 1))))
            self.put(o, off, n, x)
        for ck in L.M:
            if ck[-1] == '#arr' and ck[:-1] in idx:
                o = self.objs[idx[ck[:-1]]]; self.fresh += 1
                o.arr = (o.arr[0], o.arr[1], TM.arrayvar('~loop%d' % self.fresh))
        ctx['V'] = V
        for cid, t in self.cands(L, ctx, V):
            self.assume(t)
        ctx['snap'] = self.cells_of()
        ctx['ncheck'] = len(self.obls)
        return ctx
    def back(self, key, ctx, fr):
        L = self.abs[key]
        now = self.cells_of()
        cur = {}
        for oid, (cells, arr) in ctx['snap'].items():
            if oid not in now: continue
            c2, arr2 = now[oid]
            if arr is not arr2:
                ck = self.ck(oid, '#arr')
                if ck not in L.M: L.M.add(ck); L.grew = True
            for off in set(cells) | set(c2):
                a, b = cells.get(off), c2.get(off)
                same = a is not None and b is not None and a[0] == b[0] and self.same(a[1], b[1])
                if not same:
                    if a is None and self.objs[oid].zero is False and oid in self.objs and self.objs[oid].kind in ('stack', 'heap', 'global', 'exception'):
                        # uninitialised at the header: stays uninitialised there
                        continue
                    ck = self.ck(oid, off)
                    if ck not in L.M: L.M.add(ck); L.grew = True
        B = {}
        for ck, v in ctx['V'].items():
            oid = ctx['ent'][ck][0]
            if oid not in now or ck[-1] not in now[oid][0]: continue
            n, x = now[oid][0][ck[-1]]
            r = self.asreal(x, n, 'double' if ctx['kinds'].get(ck) == 'R' else 'i')
            if r is not None: B[ck] = r
        for cid, t in self.cands(L, ctx, B):
            self.emit('loop invariant preserved', 'bool', t, None, {'inv': (key, cid), 'implicit': True})
        for ck in B:
            if ctx['kinds'].get(ck) != 'I': continue
            for s in (1, -1):
                cid = ('variant', ck, s)
                if cid in L.dropped: continue
                L.seen.add(cid)
                d = TM.sub(B[ck], ctx['V'][ck])
                self.emit('loop variant', 'bool', TM.cmp('le', const(1), d if s == 1 else TM.neg(d)), None, {'inv': (key, cid), 'implicit': True})
        L.backs += 1
        raise X.PathEnd('loop', key)
    def same(self, a, b):
        if a is b: return True
        if isinstance(a, X.Undef) or isinstance(b, X.Undef): return isinstance(a, X.Undef) and isinstance(b, X.Undef)
        if isinstance(a, Term) or isinstance(b, Term):
            if isinstance(a, Term) and isinstance(b, int) and TM.isc(a): return self.coerce(b, X.DOUBLE, 8) is a
            if isinstance(b, Term) and isinstance(a, int): return self.same(b, a)
            return False
        return type(a) == type(b) and a == b

    def cands(self, L, ctx, S):
        """candidate invariants over the state S (cell key -> term)"""
        E = ctx['E']; kinds = ctx['kinds']; out = []
        ks = sorted((k for k in S if k in E), key=repr)
        drop = L.dropped
        def add(cid, f, *a):
            if cid in drop: return
            t = f(*a)
            if isinstance(t, int): t = TM.bconst(t)
            out.append((cid, t))
        le = lambda x, y: TM.cmp('le', x, y)
        eq = lambda x, y: TM.cmp('eq', x, y)
        for a in ks:
            add(('ge0', a), le, E[a], S[a]); add(('le0', a), le, S[a], E[a])
            add(('pos', a), lambda: TM.cmp('lt', TM.ZERO, S[a])); add(('nn', a), le, TM.ZERO, S[a])
            for ck, t in ctx['consts'].items():
                if ctx['ckind'][ck] != kinds[a]: continue
                add(('leK', a, ck), le, S[a], t); add(('geK', a, ck), le, t, S[a])
        for i, a in enumerate(ks):
            for b in ks[i + 1:]:
                if kinds[a] != kinds[b]: continue
                add(('d', a, b), lambda: TM.cmp('eq', TM.sub(S[a], S[b]), TM.sub(E[a], E[b])))
                add(('eq', a, b), eq, S[a], S[b])
                add(('le', a, b), le, S[a], S[b]); add(('ge', a, b), le, S[b], S[a])
        if self.invfn:
            self.collect = []
            sv = self.obls
            self.call_function(self.invfn, [])
            for lab, t in self.collect: add(('user', lab), lambda: t)
            self.collect = None
            self.obls = sv
        return out

    def prune(self, key, L, ctx, E):
        """drop template candidates refuted by concrete executions of the loop"""
        ts = (self.traces or {}).get(key)
        if not ts: return
        ks = sorted(E, key=repr); kinds = ctx['kinds']; drop = L.dropped
        new = [k for k in ks if k not in L.pruned]
        newc = [c for c in ctx['consts'] if c not in L.prunedc]
        if not new and not newc: return
        for run in ts:
            e0 = run[0]
            for sn in run:
                for a in ks:
                    if a not in sn: continue
                    x = sn[a]; tol = 1e-9 * (1 + abs(x))
                    if x <= 0: drop.add(('pos', a))
                    if x < 0: drop.add(('nn', a))
                    if a in e0:
                        if x < e0[a] - tol: drop.add(('ge0', a))
                        if x > e0[a] + tol: drop.add(('le0', a))
                    for ck in ctx['consts']:
                        y = float(ck[1]) if ck[0] == 'lit' else sn.get(ck[1] if ck[0] == 'cell' else ck)
                        if y is None: continue
                        if x > y + tol: drop.add(('leK', a, ck))
                        if x < y - tol: drop.add(('geK', a, ck))
                for i, a in enumerate(ks):
                    if a not in sn: continue
                    x = sn[a]
                    for b in ks[i + 1:]:
                        if b not in sn: continue
                        if kinds[a] != kinds[b]: continue
                        y = sn[b]; tol = 1e-7 * (1 + abs(x) + abs(y))
                        if abs(x - y) > tol: drop.add(('eq', a, b))
                        if x > y + tol: drop.add(('le', a, b))
                        if x < y - tol: drop.add(('ge', a, b))
                        if a in e0 and b in e0 and abs((x - y) - (e0[a] - e0[b])) > tol: drop.add(('d', a, b))
                for lab, v in sn.get('#user', {}).items():
                    if not v: drop.add(('user', lab))
        L.pruned |= set(ks); L.prunedc |= set(ctx['consts'])

    # ------------------------------------------------------- fixpoint
    def run_all(self, entry, maxpaths=4096, maxunroll=400):
        for self.rounds in range(1, 60):
            for L in self.abs.values(): L.grew = False; L.backs = 0
            try:
                res = X.Executor.run_all(self, entry, maxpaths, maxunroll)
            except NeedAbstraction as e:
                self.abs[e.key] = LoopInfo()
                if True:
                    self.traces = trace(self, entry)
                    if self.debug: print('traces', '%.1fs' % (time.time() - self.t0))
                continue
            if not self.abs: return res
            if any(L.grew for L in self.abs.values()): continue
            # check candidates
            bad = {}
            cache = {}
            for p in res:
                for o in p.obls:
                    iv = o.opts.get('inv')
                    if iv is None or iv in bad: continue
                    k = (o.a.id, tuple(f.id for f in o.pc))
                    if k not in cache:
                        if k not in self.pcache: self.pcache[k] = self.prove(o)
                        cache[k] = self.pcache[k]
                    o.opts['done'] = cache[k]
                    if not cache[k]: bad[iv] = 1
            if self.debug: print('round %d: %d paths, %d invariant obligations, %d dropped, %.1fs' % (self.rounds, len(res), len(cache), len(bad), time.time() - self.t0), [str(b[1])[:200] for b in list(bad)[:3]])
            if not bad: break
            for key, cid in bad: self.abs[key].dropped.add(cid)
        else: raise X.EngineError('loop invariants did not stabilise')
        # termination: an integer cell that moves one way and is bounded that way by a loop constant
        for key, L in self.abs.items():
            ok = L.backs == 0
            for cid in L.seen - L.dropped:
                if cid[0] == 'variant':
                    want = 'leK' if cid[2] == 1 else ('geK', 'nn')
                    for d in L.seen - L.dropped:
                        if d[0] in (want if isinstance(want, tuple) else (want,)) and d[1] == cid[1]: ok = True
            if self.terminate and not ok:
                p = res[0]
                o = X.Obligation('loop terminates', 'fail', 'no decreasing measure found for the loop %s in %s' % (key[1], self.demangled.get(key[0][-1])), None, [], [])
                o.inputs = p.inputs; p.obls.append(o)
            elif ok and self.terminate:
                o = X.Obligation('loop terminates', 'bool', TM.TRUE, None, [], []); o.inputs = res[0].inputs; res[0].obls.append(o)
        return res

# ------------------------------------------------------------ concrete traces
import time, random
from . import numeric
class Numeric:
    def __init__(self, env): self.env = env; self.val = {}
    def __call__(self, t):
        val = self.val
        if t.id in val: return val[t.id]
        st = [t]
        while st:
            x = st[-1]
            if x.id in val: st.pop(); continue
            m = [a for a in x.args if isinstance(a, Term) and a.id not in val]
            if m: st += m; continue
            st.pop()
            if x.op in ('v', 'bv') and x.args[0] not in ('#pi', '#e'): v = self.env(x)
            elif x.op == 'eq':
                a, b = val[x.args[0].id], val[x.args[1].id]; v = abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))
            else:
                # one node, its arguments bound as variables
                v = eval1(x, [val[a.id] if isinstance(a, Term) else a for a in x.args])
            val[x.id] = v
        return val[t.id]
def eval1(t, a):
    import math
    o = t.op
    if o == 'c': return t.args[0].numerator / t.args[0].denominator
    if o == 'v': return math.pi if t.args[0] == '#pi' else math.e
    if o == '+': return a[0] + a[1]
    if o == '*': return a[0] * a[1]
    if o == 'neg': return -a[0]
    if o == '/': return a[0] / a[1]
    if o == 'ipow': return a[0] ** a[1]
    if o == 'max': return max(a)
    if o == 'min': return min(a)
    if o == 'fn': return TM.evalfn(a[0], a[1:], numeric.ufs, math)
    if o == 'idiv': return int(a[0] / a[1])
    if o == 'imod': return math.fmod(a[0], a[1])
    if o == 'lt': return a[0] < a[1]
    if o == 'le': return a[0] <= a[1]
    if o == 'ne': return a[0] != a[1]
    if o == 'not': return not a[0]
    if o == 'and': return a[0] and a[1]
    if o == 'or': return a[0] or a[1]
    if o == 'true': return True
    if o == 'false': return False
    raise TM.EvalError('op ' + o)

class Tracer(LoopExecutor):
    """executes one concrete path and records the cells at every loop header"""
    tracing = True
    DEPTH = 7
    def start(self, dec):
        LoopExecutor.start(self, dec)
        self.vals = {}
        self.num = Numeric(self.lookup)
        self.runs = {}
    def lookup(self, x):
        n = x.args[0]
        if n in self.vals: return self.vals[n]
        if x.op == 'bv': v = self.rng.random() < 0.5
        else:
            v = None
            for (nm, lo, hi, k) in self.inputs:
                if nm == n:
                    v = self.rng.uniform(lo, hi) if k == 'R' else lo + self.rng.randrange(int(min(hi - lo, 12)) + 1)
            if v is None: v = self.rng.choice((self.rng.uniform(0.01, 1), self.rng.uniform(-2, 2)))
        self.vals[n] = v
        return v
    def assume(self, c):
        LoopExecutor.assume(self, c)
        if c is TM.TRUE: return
        if not self.num(c): raise X.PathEnd('infeasible')
    def decide(self, c):
        if isinstance(c, int): return c & 1 == 1
        if isinstance(c, X.Undef): raise X.PathEnd('undef')
        r = bool(self.num(c))
        return r
    def snapshot(self):
        sn = {}
        for oid, o in self.objs.items():
            if not o.live: continue
            if o.kind == 'extern': continue
            for off, c in o.cells.items():
                v = c[1]
                try:
                    if isinstance(v, Term):
                        if TM.isbool(v): continue
                        f = float(self.num(v))
                    elif isinstance(v, int) and not isinstance(v, bool):
                        if self.ctype.get(X.Ptr(oid, off)) == 'double': f = float(self.coerce(v, X.DOUBLE, 8).args[0])
                        else: f = float(X.sgn(v, 8 * c[0]))
                    else: continue
                except Exception: continue
                sn[self.ck(oid, off)] = f
        for n, t in self.inputidx.items():
            try: sn[('in', n)] = float(self.num(t))
            except Exception: pass
        if self.invfn:
            self.collect = []
            sv = self.obls
            self.quiet = True
            try:
                self.call_function(self.invfn, [])
                sn['#user'] = {l: bool(self.num(t)) for l, t in self.collect}
            except (ArithmeticError, ValueError, TM.EvalError): pass
            finally: self.collect = None
        return sn
    quiet = False
    def trace_header(self, fr, label, inside):
        if self.collect is not None: return label
        key = (tuple(f.fn.name for f in self.stack), label)
        if not inside or label not in fr.lv: fr.lv[label] = [0]; self.runs.setdefault(key, []).append([])
        fr.lv[label][0] += 1
        if key not in self.want: return label
        if fr.lv[label][0] > self.DEPTH: raise X.PathEnd('trace end')
        self.runs[key][-1].append(self.snapshot())
        return label

def trace(ex, entry, seconds=20, wanted=14):
    t0 = time.time(); out = {}; n = 0
    rng = random.Random(12345)
    want = Want(ex)
    for i in range(2000):
        if time.time() - t0 > seconds or n >= wanted: break
        tr = Tracer(ex.mod, oracle=None, contracts=ex.contracts, invfn=ex.invfn)
        tr.rng = rng; tr.want = want; tr.maxunroll = 400
        tr.start([])
        try: tr.call_function(entry, []); kind = 'return'
        except X.PathEnd as e: kind = e.kind
        except (X.CppThrow, X.ImplicitFail): kind = 'other'
        except (ArithmeticError, ValueError, TM.EvalError) as e: kind = 'arith ' + repr(e)
        if tr.runs and kind != 'infeasible-pre':
            n += kind != 'infeasible'
            for k, rs in tr.runs.items(): out.setdefault(k, []).extend(r for r in rs if r)
    return out
class Want:
    """loops whose trip count is data dependent are cut after a few iterations"""
    def __init__(self, ex): self.ex = ex
    def __contains__(self, key): return key in self.ex.abs
