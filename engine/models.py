"""Interpretations of external functions (the trusted base) and harness hooks."""
import re
from . import terms as TM
from .terms import Term, const
from . import execir as X

EXACT = {}
def model(*names):
    def d(f):
        for n in names: EXACT[n] = f
        return f
    return d

def R(ex, v):
    if isinstance(v, X.Undef): return v
    if isinstance(v, int): return ex.coerce(v, X.DOUBLE, 8)
    return v

# ---------------------------------------------------------------- harness
@model('vp_real')
def _(ex, a):
    n = ex.cstr(a[0]); i = X.sgn(a[1], 32)
    name = n if i < 0 else '%s[%d]' % (n, i)
    if name in ex.inputidx: return ex.inputidx[name]
    t = TM.var(name)
    ex.inputs.append((name, float(a[2].args[0]), float(a[3].args[0]), 'R')); ex.inputidx[name] = t
    return t
@model('vp_int')
def _(ex, a):
    name = ex.cstr(a[0])
    if name in ex.inputidx: return ex.inputidx[name]
    lo, hi = X.sgn(a[1], 32), X.sgn(a[2], 32)
    t = TM.var(name, 'I')
    ex.inputs.append((name, lo, hi, 'I')); ex.inputidx[name] = t
    ex.assume(TM.cmp('le', const(lo), t)); ex.assume(TM.cmp('le', t, const(hi)))
    return t
@model('vp_choice')
def _(ex, a):
    name = ex.cstr(a[0]); lo, hi = X.sgn(a[1], 32), X.sgn(a[2], 32)
    # enumerate: decision bits
    k = lo
    while k < hi:
        c = TM.bvar('%s=%d' % (name, k))
        if ex.decide(c): break
        k += 1
    ex.inputs.append((name, k, k, 'C'))
    return k & 0xffffffff
@model('vp_bool')
def _(ex, a):
    name = ex.cstr(a[0])
    r = ex.decide(TM.bvar(name))
    ex.inputs.append((name, int(r), int(r), 'C'))
    return 1 if r else 0
@model('vp_assume')
def _(ex, a):
    c = a[0]
    if isinstance(c, int):
        if not c & 1: raise X.PathEnd('infeasible')
        return None
    if isinstance(c, X.Undef): raise X.EngineError('assume(undef)')
    ex.assume(c)
def _pair(ex, a):
    if isinstance(a[1], X.Undef) or isinstance(a[2], X.Undef):
        raise X.ImplicitFail('no result depends on an uninitialised value', '%s: undefined value in %s' % (ex.cstr(a[0]), ex.where()))
    return ex.cstr(a[0]), R(ex, a[1]), R(ex, a[2])
@model('_ZN4mfem6Device18GetHostMemoryClassEv', '_ZN4mfem6Device20GetDeviceMemoryClassEv', '_ZN4mfem6Device14GetMemoryClassEv', '_ZN4mfem6Device17GetHostMemoryTypeEv', '_ZN4mfem6Device19GetDeviceMemoryTypeEv', '_ZN4mfem6Device13GetMemoryTypeEv')
def _(ex, a): return 0
@model('vp_eq')
def _(ex, a):
    l, x, y = _pair(ex, a); ex.emit(l, 'eq', x, y)
@model('vp_eqtol')
def _(ex, a):
    l, x, y = _pair(ex, a)
    d = TM.sub(x, y); t = R(ex, a[3])
    ex.emit(l, 'le', TM.fn('abs', d), t)
@model('vp_fact_eq')
def _(ex, a):
    l, x, y = _pair(ex, a); ex.emit(l, 'eq', x, y)
    ex.assume(TM.cmp('eq', x, y))
@model('vp_le')
def _(ex, a):
    l, x, y = _pair(ex, a); ex.emit(l, 'le', x, y)
@model('vp_lt')
def _(ex, a):
    l, x, y = _pair(ex, a); ex.emit(l, 'lt', x, y)
@model('vp_true')
def _(ex, a):
    l = ex.cstr(a[0]); c = a[1]
    if isinstance(c, int): c = TM.bconst(c & 1)
    ex.emit(l, 'bool', c, None)
@model('vp_ieq')
def _(ex, a):
    l = ex.cstr(a[0]); x, y = ex.asint(a[1], 64), ex.asint(a[2], 64)
    ex.emit(l, 'bool', TM.cmp('eq', x, y), None)
@model('vp_fn')
def _(ex, a):
    n = ex.cstr(a[0]); k = X.sgn(a[1], 32)
    xs = [R(ex, ex.load(X.Ptr(a[2][0], a[2][1] + 8 * i), X.DOUBLE)) for i in range(k)]
    return TM.fn('@' + TM.dname(n), *xs)
@model('vp_dfn')
def _(ex, a):
    n = ex.cstr(a[0]); i = X.sgn(a[1], 32); k = X.sgn(a[2], 32)
    xs = [R(ex, ex.load(X.Ptr(a[3][0], a[3][1] + 8 * j), X.DOUBLE)) for j in range(k)]
    return TM.fn('@' + TM.dname(n, i), *xs)
@model('vp_fresh')
def _(ex, a):
    ex.fresh += 1
    return TM.var('~%s#%d' % (ex.cstr(a[0]), ex.fresh))
@model('vp_cut')
def _(ex, a): return R(ex, a[1])
@model('vp_diff')
def _(ex, a):
    f, x = R(ex, a[0]), R(ex, a[1])
    if x.op != 'v': raise X.EngineError('vp_diff with respect to a non-variable')
    return TM.diff(f, x)
@model('vp_tol')
def _(ex, a): return None
@model('vp_cand')
def _(ex, a):
    c = a[1]
    if getattr(ex, 'collect', None) is not None: ex.collect.append((ex.cstr(a[0]), TM.bconst(c & 1) if isinstance(c, int) else c))
@model('vp_reach')
def _(ex, a): ex.covers.append((ex.cstr(a[0]), len(ex.pc)))
@model('vp_log')
def _(ex, a): ex.ghostlog.append((ex.cstr(a[0]), a[1]))
@model('vp_symbolic')
def _(ex, a): return 1

# ------------------------------------------------------------- math
def m1(name):
    def f(ex, a):
        x = R(ex, a[0])
        if isinstance(x, X.Undef): return x
        return TM.fn(name, x)
    return f
for n in ('sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'atan', 'acos', 'asin', 'tanh', 'sinh', 'cosh', 'atanh', 'cbrt', 'floor', 'ceil', 'tgamma', 'log10', 'round'):
    EXACT[n] = m1(n)
    EXACT['llvm.%s.f64' % n] = EXACT[n]
def _log10(ex, a): return TM.div(TM.fn('log', R(ex, a[0])), TM.fn('log', const(10)))
EXACT['log10'] = EXACT['llvm.log10.f64'] = _log10
EXACT['sinh'] = lambda ex, a: TM.mul(TM.HALF, TM.sub(TM.fn('exp', R(ex, a[0])), TM.fn('exp', TM.neg(R(ex, a[0])))))
EXACT['cosh'] = lambda ex, a: TM.mul(TM.HALF, TM.add(TM.fn('exp', R(ex, a[0])), TM.fn('exp', TM.neg(R(ex, a[0])))))
def _tgamma(ex, a):
    x = a[0]
    if TM.isc(x) and x.args[0].denominator == 1 and 0 < x.args[0] <= 60:
        import math
        return const(math.factorial(int(x.args[0]) - 1))
    return TM.fn('tgamma', x)
EXACT['tgamma'] = _tgamma
# With `split` the executor forks on the comparison (the path condition then
# says which branch was taken) instead of building an abs/max/min term.
def vmax(ex, x, y):
    if getattr(ex, 'split', False) and not (TM.isc(x) and TM.isc(y)):
        return y if ex.decide(TM.cmp('lt', x, y)) else x
    return TM.tmax(x, y)
def vmin(ex, x, y):
    if getattr(ex, 'split', False) and not (TM.isc(x) and TM.isc(y)):
        return y if ex.decide(TM.cmp('lt', y, x)) else x
    return TM.tmin(x, y)
@model('fabs', 'llvm.fabs.f64')
def _(ex, a):
    x = R(ex, a[0])
    if isinstance(x, X.Undef): return x
    if getattr(ex, 'split', False) and not TM.isc(x):
        return TM.neg(x) if ex.decide(TM.cmp('lt', x, TM.ZERO)) else x
    return TM.fn('abs', x)
@model('pow', 'llvm.pow.f64')
def _(ex, a):
    x, y = R(ex, a[0]), R(ex, a[1])
    if isinstance(x, X.Undef) or isinstance(y, X.Undef): return X.UND
    return TM.fn('pow', x, y)
@model('atan2')
def _(ex, a): return TM.fn('atan2', R(ex, a[0]), R(ex, a[1]))
@model('fmod')
def _(ex, a): return TM.fn('fmod', R(ex, a[0]), R(ex, a[1]))
@model('llvm.fmuladd.f64', 'fma', 'llvm.fma.f64')
def _(ex, a): return TM.add(TM.mul(R(ex, a[0]), R(ex, a[1])), R(ex, a[2]))
@model('llvm.copysign.f64', 'copysign')
def _(ex, a):
    x = TM.fn('abs', R(ex, a[0]))
    return TM.neg(x) if ex.decide(TM.cmp('lt', R(ex, a[1]), TM.ZERO)) else x
@model('llvm.maxnum.f64', 'fmax', 'llvm.maximum.f64')
def _(ex, a): return vmax(ex, R(ex, a[0]), R(ex, a[1]))
@model('llvm.minnum.f64', 'fmin', 'llvm.minimum.f64')
def _(ex, a): return vmin(ex, R(ex, a[0]), R(ex, a[1]))
@model('llvm.is.fpclass.f64')
def _(ex, a): return 0
def iabs(ex, a):
    x = a[0]
    if isinstance(x, int): return abs(X.sgn(x, 32)) & 0xffffffff
    return x if ex.decide(TM.cmp('le', TM.ZERO, x)) else TM.neg(x)
EXACT['abs'] = iabs; EXACT['llvm.abs.i32'] = iabs
def imm(pick, w, signed):
    def f(ex, a):
        x, y = a
        if isinstance(x, int) and isinstance(y, int):
            k = (lambda v: X.sgn(v, w)) if signed else (lambda v: v)
            return pick(x, y, key=k)
        raise X.EngineError('symbolic imin/imax')
    return f
for w in (32, 64):
    EXACT['llvm.smax.i%d' % w] = imm(max, w, True); EXACT['llvm.smin.i%d' % w] = imm(min, w, True)
    EXACT['llvm.umax.i%d' % w] = imm(max, w, False); EXACT['llvm.umin.i%d' % w] = imm(min, w, False)

# std::max / std::min on doubles (by reference): returns a pointer
def refmm(t):
    def f(ex, a):
        x = R(ex, ex.load(a[0], X.DOUBLE)); y = R(ex, ex.load(a[1], X.DOUBLE))
        if isinstance(x, X.Undef) or isinstance(y, X.Undef): raise X.ImplicitFail('initialised', 'max/min of uninitialised value')
        if x is y: return a[0]
        o = ex.alloc(8, 'minmax', 'stack')
        ex.put(o, 0, 8, t(ex, x, y))
        return X.Ptr(o.id, 0)
    return f
EXACT['_ZSt3maxIdERKT_S2_S2_'] = refmm(vmax)
EXACT['_ZSt3minIdERKT_S2_S2_'] = refmm(vmin)

# ------------------------------------------------------------- memory
@model('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
def _(ex, a):
    n = a[0]
    o = ex.alloc(n if isinstance(n, int) else (1 << 40), 'heap', 'heap')
    if isinstance(n, Term):
        from .lin import lindiv
        ln = lindiv(n, 8)
        if ln is None: raise X.EngineError('symbolic allocation')
        o.arr = (8, 'R', TM.arrayvar('heap%d' % o.id)); o.ty = ln; o.size = n
    return X.Ptr(o.id, 0)
@model('_ZnamSt11align_val_t', '_ZnwmSt11align_val_t', 'aligned_alloc')
def _(ex, a):
    return EXACT['_Znwm'](ex, [a[0]])
@model('calloc')
def _(ex, a):
    o = ex.alloc(a[0] * a[1], 'heap', 'heap'); o.zero = True
    return X.Ptr(o.id, 0)
@model('_ZdlPv', '_ZdlPvm', '_ZdaPv', 'free', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdaPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def _(ex, a):
    p = a[0]
    if isinstance(p, X.Ptr):
        o = ex.objs[p[0]]
        if not o.live: raise X.ImplicitFail('memory safety', 'double free in %s' % (ex.where(),))
        o.live = False
    elif isinstance(p, X.Undef): raise X.ImplicitFail('memory safety', 'free of uninitialised pointer in %s' % (ex.where(),))
    return None
@model('memcpy', 'memmove')
def _(ex, a):
    ex.memcpy(a[0], a[1], a[2]); return a[0]
@model('memset')
def _(ex, a):
    ex.memset(a[0], a[1], a[2]); return a[0]
@model('strlen')
def _(ex, a): return len(ex.cstr(a[0]))
@model('memcmp')
def _(ex, a):
    n = a[2]
    for i in range(n):
        x = ex.load(X.Ptr(a[0][0], a[0][1] + i), ('i', 8)); y = ex.load(X.Ptr(a[1][0], a[1][1] + i), ('i', 8))
        if x != y: return (1 if x > y else -1) & 0xffffffff
    return 0
@model('memchr')
def _(ex, a):
    for i in range(a[2]):
        if ex.load(X.Ptr(a[0][0], a[0][1] + i), ('i', 8)) == a[1] & 255: return X.Ptr(a[0][0], a[0][1] + i)
    return 0
@model('strcmp')
def _(ex, a):
    x, y = ex.cstr(a[0]), ex.cstr(a[1])
    return 0 if x == y else (1 if x > y else 0xffffffff)

# ------------------------------------------------------------- C++ runtime
@model('__cxa_allocate_exception')
def _(ex, a): return X.Ptr(ex.alloc(a[0], 'exception', 'heap').id, 0)
@model('__cxa_free_exception')
def _(ex, a): return None
@model('__cxa_throw')
def _(ex, a): raise X.CppThrow(a[0], a[1])
@model('__cxa_begin_catch')
def _(ex, a):
    e = ex.exn_stack.pop(); ex.lastcaught.append(e); return a[0]
# bases of the library classes whose typeinfo lives in libmfem
MFEM_BASES = {'Operator': [], 'TimeDependentOperator': ['Operator'], 'Solver': ['Operator'], 'Matrix': ['Operator'], 'IterativeSolver': ['Solver', 'Operator'],
              'AbstractSparseMatrix': ['Matrix', 'Operator'], 'ODESolver': [], 'Coefficient': [], 'VectorCoefficient': [], 'MatrixCoefficient': [],
              'NonlinearFormIntegrator': [], 'FiniteElement': [], 'HypreParMatrix': ['Operator'], 'HypreSolver': ['Solver', 'Operator'], 'BlockOperator': ['Operator'],
              'IdentityOperator': ['Operator'], 'ConstantCoefficient': ['Coefficient'], 'NewtonSolver': ['IterativeSolver', 'Solver', 'Operator']}
def ti_find(ex, ti, dst, off):
    if ti == dst: return off
    o = ex.objs[ti[0]]
    if o.kind == 'global-init': ex.init_global(o)
    if o.kind == 'extern':
        import re
        m = re.match(r'_ZTIN4mfem\d+(\w+)E$', o.name)
        if m is None or m.group(1) not in MFEM_BASES: raise X.EngineError('dynamic_cast through unknown type ' + o.name)
        d = re.match(r'_ZTIN4mfem\d+(\w+)E$', ex.objs[dst[0]].name)
        if d and d.group(1) in MFEM_BASES[m.group(1)]: return off
        return None
    if o.size == 24:
        return ti_find(ex, ex.load(X.Ptr(ti[0], 16), X.PTR), dst, off)
    if o.size > 24:
        for i in range(ex.load(X.Ptr(ti[0], 20), ('i', 32))):
            fl = X.sgn(ex.load(X.Ptr(ti[0], 32 + 16 * i), ('i', 64)), 64)
            if fl & 1: raise X.EngineError('dynamic_cast through a virtual base')
            r = ti_find(ex, ex.load(X.Ptr(ti[0], 24 + 16 * i), X.PTR), dst, off + (fl >> 8))
            if r is not None: return r
    return None
@model('__dynamic_cast')
def _(ex, a):
    p = a[0]
    if p == 0: return 0
    vp = ex.load(p, X.PTR)
    if not isinstance(vp, X.Ptr): raise X.ImplicitFail('memory safety', 'dynamic_cast of an object without a vtable in %s' % (ex.where(),))
    vo = ex.objs[vp[0]]
    if vo.kind == 'extern': raise X.EngineError('dynamic_cast of library object ' + vo.name)
    if vo.kind == 'global-init': ex.init_global(vo)
    top = X.sgn(ex.load(X.Ptr(vp[0], vp[1] - 16), ('i', 64)), 64)
    ti = ex.load(X.Ptr(vp[0], vp[1] - 8), X.PTR)
    r = ti_find(ex, ti, a[2], 0)
    return 0 if r is None else X.Ptr(p[0], p[1] + top + r)
@model('__cxa_end_catch')
def _(ex, a):
    if ex.lastcaught: ex.lastcaught.pop()
@model('__cxa_rethrow')
def _(ex, a): raise ex.lastcaught.pop()
@model('llvm.eh.typeid.for', 'llvm.eh.typeid.for.p0')
def _(ex, a): return ex.typeid(a[0]) if isinstance(a[0], X.Ptr) else 1
@model('__cxa_guard_acquire')
def _(ex, a):
    if ex.guards.get(a[0]): return 0
    ex.guards[a[0]] = True
    ex.store(a[0], ('i', 8), 1)
    return 1
@model('__cxa_guard_release', '__cxa_guard_abort', '__cxa_atexit', '__gxx_personality_v0', 'llvm.trap', 'llvm.assume', 'llvm.donothing',
       'llvm.experimental.noalias.scope.decl', 'llvm.stackrestore', 'llvm.stackrestore.p0', 'llvm.va_start', 'llvm.va_end', 'llvm.invariant.start.p0')
def _(ex, a): return 0
@model('llvm.stacksave', 'llvm.stacksave.p0')
def _(ex, a): return 0
@model('llvm.expect.i64', 'llvm.expect.i1', 'llvm.expect.i32')
def _(ex, a): return a[0]
@model('llvm.is.constant.i64', 'llvm.is.constant.i32', 'llvm.is.constant.f64')
def _(ex, a): return 0
@model('llvm.objectsize.i64.p0')
def _(ex, a): return (1 << 64) - 1
@model('abort', '_ZSt9terminatev', 'exit', '__assert_fail', '__cxa_pure_virtual', '_ZN4mfem10mfem_errorEPKc', '_ZSt17__throw_bad_allocv')
def _(ex, a): raise X.PathEnd('abort', ex.where())
@model('snprintf')
def _(ex, a):
    """writes some text and a terminator inside the given size"""
    if not isinstance(a[1], int): raise X.EngineError('snprintf with a symbolic size')
    if a[1] == 0: return 1
    for i in range(a[1] - 1): ex.store(X.Ptr(a[0][0], a[0][1] + i), ('i', 8), 120)
    ex.store(X.Ptr(a[0][0], a[0][1] + a[1] - 1), ('i', 8), 0)
    return a[1] - 1
@model('_ZN4mfem12mfem_warningEPKc')
def _(ex, a): return None
for nm in ('_ZSt20__throw_length_errorPKc', '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt20__throw_out_of_rangePKc', '_ZSt19__throw_logic_errorPKc',
           '_ZSt25__throw_bad_function_callv', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt21__throw_runtime_errorPKc', '_ZSt26__throw_bad_variant_accessPKc', '_ZSt24__throw_invalid_argumentPKc'):
    def _thr(ex, a, nm=nm):
        o = ex.alloc(16, 'std-exception', 'heap')
        cls = re.match(r'_ZSt\d+__throw_(\w+?)(_fmt)?(PKcz?|v)$', nm).group(1)
        g = ex.alloc(16, '_ZTISt%d%s' % (len(cls), cls), 'extern')
        raise X.CppThrow(X.Ptr(o.id, 0), X.Ptr(g.id, 0))
    EXACT[nm] = _thr
def overflow(op, signed, w):
    def f(ex, a):
        x, y = a
        if isinstance(x, int) and isinstance(y, int):
            if signed: x, y = X.sgn(x, w), X.sgn(y, w)
            r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
            lo, hi = (-(1 << (w - 1)), 1 << (w - 1)) if signed else (0, 1 << w)
            return [r & ((1 << w) - 1), int(not lo <= r < hi)]
        r = TM.mul(ex.asint(x, w), ex.asint(y, w)) if op == 'mul' else TM.add(ex.asint(x, w), ex.asint(y, w))
        return [r, 0]
    return f
for w in (32, 64):
    for op in ('add', 'sub', 'mul'):
        EXACT['llvm.u%s.with.overflow.i%d' % (op, w)] = overflow(op, False, w)
        EXACT['llvm.s%s.with.overflow.i%d' % (op, w)] = overflow(op, True, w)

# ------------------------------------------------------------- patterns
PATTERNS = []
def pattern(rx):
    def d(f): PATTERNS.append((re.compile(rx), f)); return f
    return d
@pattern(r'^llvm\.memcpy\.|^llvm\.memmove\.')
def _(ex, a): ex.memcpy(a[0], a[1], a[2])
@pattern(r'^llvm\.memset\.')
def _(ex, a): ex.memset(a[0], a[1], a[2])
# stream output has no effect on the properties: returns the stream
STREAM = re.compile(r'^(_ZNSo|_ZStls|_ZNKSo|_ZSt4endl|_ZNSt8ios_base|_ZNSt9basic_ios|_ZNKSt9basic_ios|_ZNKSt8ios_base|_ZSt5flush|_ZNSolsE|_ZN4mfem9OutStream|_ZSt16__ostream_insert|_ZNSt13basic_ostream)')
OSS = re.compile(r'^_ZNSt7__cxx111[89]basic_o?stringstreamIcSt11char_traitsIcESaIcEE[CD][012]Ev$')
OSS_STR = re.compile(r'^_ZNKS?S?t7__cxx111[89]basic_o?stringstreamIcSt11char_traitsIcESaIcEE3strEv$')
def oss_str(ex, a):
    ex.store(a[0], X.PTR, X.Ptr(a[0][0], a[0][1] + 16)); ex.store(X.Ptr(a[0][0], a[0][1] + 8), ('i', 64), 0); ex.store(X.Ptr(a[0][0], a[0][1] + 16), ('i', 8), 0)
def stream(ex, a): return a[0] if a else None
_cache = {}
def lookup(ex, name):
    h = EXACT.get(name)
    if h is not None:
        if not name.startswith('vp_'): ex.ext_used.add(name)
        return h
    if STREAM.search(name):
        ex.ext_used.add('stream output (no effect)')
        return stream
    if OSS.search(name) or OSS_STR.search(name):
        ex.ext_used.add('stream output (no effect)')
        return stream if OSS.search(name) else oss_str
    if name in ex.mod.funcs: return ex.models_override.get(name) if hasattr(ex, 'models_override') else None
    for rx, f in PATTERNS:
        if rx.search(name):
            ex.ext_used.add(name)
            return f
    return None

# standard exceptions carry a message only: their construction has no effect the code observes
@model('_ZNSt13runtime_errorC1EPKc', '_ZNSt13runtime_errorC2EPKc', '_ZNSt13runtime_errorC1ERKS_', '_ZNSt13runtime_errorC2ERKS_', '_ZNSt13runtime_errorD1Ev', '_ZNSt13runtime_errorD2Ev',
       '_ZNSt9exceptionD2Ev', '_ZNSt9exceptionD1Ev')
def _(ex, a): return None
