"""Symbolic executor (strongest-postcondition calculus) over LLVM IR.

Every path of a harness is executed by re-execution with a decision vector.
Doubles are real terms, integers are Python ints unless made symbolic by the
harness, memory is a set of byte addressed objects.  Memory accesses are
checked for bounds/liveness/initialisation; a failing check is an obligation
that failed, not an engine error.
"""
import subprocess, re
from fractions import Fraction
from . import terms as TM
from .terms import Term, const, UNDEF
from .irparse import Module, PTR, DOUBLE, VOID

class EngineError(Exception): pass
class PathEnd(Exception):
    def __init__(self, kind, info=None): self.kind = kind; self.info = info
class CppThrow(Exception):
    def __init__(self, obj, ti): self.obj = obj; self.ti = ti
class ImplicitFail(Exception):
    def __init__(self, label, msg): self.label = label; self.msg = msg

class Ptr(tuple):
    __slots__ = ()
    def __new__(cls, obj, off): return tuple.__new__(cls, (obj, off))
class Fn:
    __slots__ = ('name',)
    def __init__(self, n): self.name = n
    def __eq__(self, o): return isinstance(o, Fn) and o.name == self.name
    def __hash__(self): return hash(self.name)
    def __repr__(self): return 'Fn(%s)' % self.name
class Undef:
    def __repr__(self): return 'undef'
UND = Undef()

class Obj:
    __slots__ = ('id', 'size', 'cells', 'name', 'live', 'kind', 'arr', 'const', 'ty', 'zero')
    def __init__(self, id, size, name, kind):
        self.id = id; self.size = size; self.cells = {}; self.name = name
        self.live = True; self.kind = kind; self.arr = None; self.const = False; self.zero = False

class Frame:
    __slots__ = ('fn', 'regs', 'allocas', 'prev', 'heads', 'uid', 'lv')

def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v

class Obligation:
    __slots__ = ('label', 'kind', 'a', 'b', 'pc', 'npc', 'path', 'where', 'opts', 'inputs')
    def __init__(self, label, kind, a, b, pc, where, opts=None):
        self.label = label; self.kind = kind; self.a = a; self.b = b; self.pc = pc; self.where = where
        self.opts = opts or {}

STD_BASE = {'_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt16invalid_argument': '_ZTISt11logic_error',
            '_ZTISt12domain_error': '_ZTISt11logic_error', '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt11range_error': '_ZTISt13runtime_error',
            '_ZTISt14overflow_error': '_ZTISt13runtime_error', '_ZTISt15underflow_error': '_ZTISt13runtime_error', '_ZTISt17bad_function_call': '_ZTISt9exception',
            '_ZTISt18bad_variant_access': '_ZTISt9exception', '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc', '_ZTISt9bad_alloc': '_ZTISt9exception'}

class Executor:
    MAXSTEP = 30000000
    def __init__(self, mod, oracle=None, contracts=None, verbose=False):
        self.mod = mod
        self.oracle = oracle
        self.contracts = contracts or {}      # mangled name -> python callable(ex, args) or harness fn name
        self.demangled = {}
        self.verbose = verbose
        self.steps = 0
        self.called = set()        # functions entered (mangled)
        self.ext_used = set()      # external models used
        self.loopmods = {}
        self.havocs = {}
        self.build_demangle()

    def build_demangle(self):
        names = sorted(set(self.mod.funcs) | self.mod.decls)
        p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        self.demangled = dict(zip(names, p.stdout.split('\n')))

    # -------------------------------------------------------------- paths
    def run_all(self, entry, maxpaths=4096, maxunroll=400):
        """explore all paths of harness `entry`; yields PathResult"""
        self.maxunroll = maxunroll
        work = [[]]
        results = []
        while work:
            dec = work.pop()
            self.start(dec)
            try:
                self.call_function(entry, [])
                kind, info = 'return', None
            except PathEnd as e:
                kind, info = e.kind, e.info
            except CppThrow as e:
                kind, info = 'throw', self.throw_name(e)
            except ImplicitFail as e:
                self.emit(e.label, 'fail', e.msg, None)
                kind, info = 'implicit-fail', e.msg
            results.append(PathResult(self, kind, info))
            for alt in self.alts: work.append(alt)
            if len(results) > maxpaths: raise EngineError('too many paths in ' + entry)
        return results

    def start(self, dec):
        self.dec = dec
        self.dpos = 0
        self.alts = []
        self.taken = []
        self.pc = []
        self.pcset = set()
        self.objs = {}
        self.nobj = 1
        self.gobj = {}
        self.obls = []
        self.inputs = []     # (name, term, lo, hi, kind)
        self.inputidx = {}
        self.fresh = 0
        self.stack = []
        self.ghost = {}
        self.guards = {}
        self.steps = 0
        self.nchecks = 0
        self.lastcaught = []
        self.exn_stack = []
        self.covers = []
        self.frameuid = 0
        self.nacts = 0
        self.ghostlog = []

    def throw_name(self, e):
        return self.demangle_ti(e.ti)
    def demangle_ti(self, ti):
        if isinstance(ti, Ptr):
            n = self.objs[ti[0]].name
            return subprocess.run(['c++filt', '-t', n.replace('_ZTI', '')], capture_output=True, text=True).stdout.strip()
        return str(ti)

    def where(self):
        return [self.demangled.get(f.fn.name, f.fn.name).split('(')[0] for f in self.stack[-6:]]

    def emit(self, label, kind, a, b, opts=None):
        self.obls.append(Obligation(label, kind, a, b, list(self.pc), self.where(), opts))

    def assume(self, c):
        if c is TM.TRUE: return
        if c is TM.FALSE: raise PathEnd('infeasible')
        if c.op == 'and':
            self.assume(c.args[0]); self.assume(c.args[1]); return
        if c.id in self.pcset: return
        self.pcset.add(c.id)
        self.pc.append(c)

    def decide(self, c):
        """branch on boolean term, forking if needed"""
        if isinstance(c, int): return c & 1 == 1
        if c is UND or isinstance(c, Undef):
            raise ImplicitFail('no branch on an uninitialised value', 'branch on undef in %s' % (self.where(),))
        if c is TM.TRUE: return True
        if c is TM.FALSE: return False
        if c.id in self.pcset: return True
        n = TM.bnot(c)
        if n.id in self.pcset: return False
        if c.op == 'and':
            return self.decide(c.args[0]) and self.decide(c.args[1])
        if c.op == 'or':
            return self.decide(c.args[0]) or self.decide(c.args[1])
        if c.op == 'not': return not self.decide(c.args[0])
        if self.dpos < len(self.dec):
            r = self.dec[self.dpos]; self.dpos += 1
            self.taken.append(r)
            if r in (True, False):
                self.assume(c if r else n)
                return r
            return r == 'T'     # forced by oracle
        r = self.oracle(c, self.pc) if self.oracle else None
        self.dpos += 1
        if r is not None:
            self.dec = self.dec + ['T' if r else 'F']
            self.taken.append('T' if r else 'F')
            self.assume(c if r else n)
            return r
        if len(self.taken) > 300: raise EngineError('too many decisions')
        self.alts.append(self.dec + [False])
        self.dec = self.dec + [True]
        self.taken.append(True)
        self.assume(c)
        return True

    # ------------------------------------------------------------- memory
    def alloc(self, size, name, kind):
        o = Obj(self.nobj, size, name, kind); self.nobj += 1
        self.objs[o.id] = o
        return o
    def obj_of(self, p, what, n):
        if isinstance(p, Undef): raise ImplicitFail('memory safety', '%s through uninitialised pointer in %s' % (what, self.where()))
        if not isinstance(p, Ptr):
            raise ImplicitFail('memory safety', '%s through invalid pointer %r in %s' % (what, p, self.where()))
        o = self.objs[p[0]]
        self.nchecks += 1
        if not o.live: raise ImplicitFail('memory safety', '%s of dead object %s in %s' % (what, o.name, self.where()))
        off = p[1]
        if isinstance(off, int) and isinstance(o.size, int):
            if off < 0 or off + n > o.size:
                raise ImplicitFail('memory safety', '%s out of bounds: offset %d size %d of object %s[%s] in %s' % (what, off, n, o.name, o.size, self.where()))
        return o
    def load(self, p, t):
        n = self.mod.size(t)
        k = t[0]
        if k in ('struct', 'array', 'named'):
            t2 = self.mod.resolve(t) if k == 'named' else t
            if t2[0] == 'array':
                s = self.mod.size(t2[2])
                return [self.load(Ptr(p[0], p[1] + i * s), t2[2]) for i in range(t2[1])]
            offs = self.mod.layout(t2)[2]
            return [self.load(Ptr(p[0], p[1] + o), e) for o, e in zip(offs, t2[1])]
        if k == 'vec':
            s = self.mod.size(t[2])
            return [self.load(Ptr(p[0], p[1] + i * s), t[2]) for i in range(t[1])]
        o = self.obj_of(p, 'read', n)
        off = p[1]
        if o.arr is not None: return self.load_arr(o, off, t, n)
        if isinstance(off, Term): raise EngineError('symbolic offset into plain object %s' % o.name)
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
            return self.coerce(v, t, n)
        if c is None and not any((off + i) in o.cells for i in range(-15, n)):
            if o.kind == 'global-init': self.init_global(o)
            if off in o.cells: return self.load(p, t)
            if o.zero: return self.coerce(0, t, n)
            return UND
        # gather bytes
        bs = []
        for i in range(n):
            bs.append(self.byte_at(o, off + i))
        if any(b is None for b in bs):
            if all(b is None for b in bs): return UND
            return UND
        v = 0
        for i, b in enumerate(bs): v |= b << (8 * i)
        return self.coerce(v, t, n)
    def byte_at(self, o, off):
        for s in range(off, off - 17, -1):
            c = o.cells.get(s)
            if c is not None:
                if s + c[0] > off:
                    v = c[1]
                    if isinstance(v, Term) and TM.isc(v) and c[0] == 8:
                        import struct
                        v = int.from_bytes(struct.pack('<d', float(v.args[0])), 'little')
                    if isinstance(v, int):
                        return (v >> (8 * (off - s))) & 255
                    return None
                break
        return 0 if o.zero else None
    def coerce(self, v, t, n):
        k = t[0]
        if k in ('double', 'float', 'x86_fp80'):
            if isinstance(v, int):
                if v == 0: return TM.ZERO
                return TM.from_double(TM.bits_to_double(v, n))
            return v
        if k == 'i':
            if isinstance(v, Term) and TM.isc(v) and self.is_real_cell(v):
                pass
            return v
        return v
    def is_real_cell(self, v): return True
    def store(self, p, t, v):
        n = self.mod.size(t)
        k = t[0]
        if k in ('struct', 'array', 'named', 'vec'):
            t2 = self.mod.resolve(t) if k == 'named' else t
            if isinstance(v, Undef): return
            if t2[0] in ('array', 'vec'):
                s = self.mod.size(t2[2])
                for i in range(t2[1]): self.store(Ptr(p[0], p[1] + i * s), t2[2], v[i])
            else:
                for o, e, x in zip(self.mod.layout(t2)[2], t2[1], v): self.store(Ptr(p[0], p[1] + o), e, x)
            return
        o = self.obj_of(p, 'write', n)
        if o.const: raise ImplicitFail('memory safety', 'write to constant %s in %s' % (o.name, self.where()))
        off = p[1]
        if o.arr is not None: return self.store_arr(o, off, t, n, v)
        if isinstance(off, Term): raise EngineError('symbolic offset store into plain object %s' % o.name)
        if o.kind == 'global-init': self.init_global(o)
        self.note_write(o, off, n)
        if k == 'i' and t[1] < 8 and isinstance(v, int): pass
        self.put(o, off, n, v)
    def note_write(self, o, off, n): pass
    def put(self, o, off, n, v):
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != n:
            self.clear(o, off, n)
        cells[off] = (n, v)
    def clear(self, o, off, n):
        cells = o.cells
        for s in range(off - 15, off + n):
            c = cells.get(s)
            if c is not None and s + c[0] > off:
                if s < off or s + c[0] > off + n:
                    # split
                    v = c[1]
                    del cells[s]
                    if isinstance(v, int):
                        for i in range(c[0]):
                            if not (off <= s + i < off + n): cells[s + i] = (1, (v >> (8 * i)) & 255)
                else: del cells[s]
    # arrays with symbolic content (generic)
    def load_arr(self, o, off, t, n):
        es, sort = o.arr[0], o.arr[1]
        if n != es: raise EngineError('array element size mismatch')
        idx = self.div_off(off, es)
        self.check_bounds(o, idx, 'read')
        return TM.select(o.arr[2], idx)
    def store_arr(self, o, off, t, n, v):
        es, sort = o.arr[0], o.arr[1]
        if n != es: raise EngineError('array element size mismatch')
        idx = self.div_off(off, es)
        self.check_bounds(o, idx, 'write')
        if isinstance(v, int): v = const(v)
        self.note_write(o, None, n)
        o.arr = (es, sort, TM.store(o.arr[2], idx, v))
    def div_off(self, off, es):
        if isinstance(off, int):
            if off % es: raise EngineError('misaligned')
            return const(off // es)
        from .lin import lindiv
        r = lindiv(off, es)
        if r is None: raise EngineError('offset not a multiple of the element size: %r' % off)
        return r
    def check_bounds(self, o, idx, what):
        ln = o.ty
        self.emit('memory safety: %s within bounds of %s' % (what, o.name), 'bool',
                  TM.band(TM.cmp('le', TM.ZERO, idx), TM.cmp('lt', idx, ln)), None, {'implicit': True})

    def memcpy(self, d, s, n):
        if isinstance(n, Term):
            if TM.isc(n): n = int(n.args[0])
            else: raise EngineError('symbolic memcpy length')
        if n == 0: return
        so = self.obj_of(s, 'read', n); do = self.obj_of(d, 'write', n)
        if so.kind == 'global-init': self.init_global(so)
        if do.kind == 'global-init': self.init_global(do)
        if so.arr is not None or do.arr is not None:
            es = (so.arr or do.arr)[0]
            for i in range(0, n, es):
                v = self.load(Ptr(s[0], s[1] + i), DOUBLE if (so.arr or do.arr)[1] == 'R' else ('i', es * 8))
                self.store(Ptr(d[0], d[1] + i), DOUBLE, v)
            return
        items = []
        i = 0
        so_off, do_off = s[1], d[1]
        for off in sorted(k for k in so.cells if so_off - 16 < k < so_off + n):
            sz, v = so.cells[off]
            if off >= so_off and off + sz <= so_off + n: items.append((off - so_off, sz, v))
            elif off + sz > so_off and isinstance(v, int):
                for b in range(sz):
                    if so_off <= off + b < so_off + n: items.append((off + b - so_off, 1, (v >> (8 * b)) & 255))
        if so.zero:
            self.note_write(do, do_off, n)
            self.fill(do, do_off, n, 0)
        else:
            self.note_write(do, do_off, n)
            self.clear(do, do_off, n)
            if do.zero and len(items) == 0:
                pass
        for off, sz, v in items: self.put(do, do_off + off, sz, v)
    def fill(self, o, off, n, byte):
        self.clear(o, off, n)
        i = off
        b8 = int.from_bytes(bytes([byte]) * 8, 'little')
        while i < off + n:
            if i % 8 == 0 and i + 8 <= off + n: o.cells[i] = (8, b8); i += 8
            else: o.cells[i] = (1, byte); i += 1
    def memset(self, d, byte, n):
        if isinstance(n, Term): raise EngineError('symbolic memset length')
        if n == 0: return
        o = self.obj_of(d, 'write', n)
        if o.kind == 'global-init': self.init_global(o)
        self.note_write(o, d[1], n)
        if o.arr is not None: raise EngineError('memset of symbolic array')
        self.fill(o, d[1], n, byte & 255)
    def cstr(self, p):
        out = bytearray(); off = p[1]
        while True:
            v = self.load(Ptr(p[0], off), ('i', 8))
            if not isinstance(v, int): raise EngineError('cstr of non-concrete')
            if v == 0: return out.decode('latin1')
            out.append(v); off += 1

    # ------------------------------------------------------------ globals
    def global_ptr(self, name):
        m = self.mod
        cn = m.canon(name)
        if cn in m.funcs or cn in m.decls: return Fn(cn)
        oid = self.gobj.get(cn)
        if oid is None:
            if cn not in m.globals: raise EngineError('unknown global ' + name)
            t, init, isc = m.parse_global(cn)
            o = self.alloc(m.size(t), cn, 'global-init' if init is not None else 'extern')
            if init is None:
                o.size = 1 << 20
            o.ty = (t, init, isc)
            oid = o.id; self.gobj[cn] = oid
        return Ptr(oid, 0)
    def init_global(self, o):
        t, init, isc = o.ty
        o.kind = 'global'
        self.init_mem(o, 0, t, init)
        o.const = isc
    def init_mem(self, o, off, t, v):
        m = self.mod
        if v[0] == 'u': return
        t = m.resolve(t)
        if v[0] == 'z':
            self.fill(o, off, m.size(t), 0) if m.size(t) <= 4096 else setattr(o, 'zero', True)
            return
        if v[0] == 's':
            for i, b in enumerate(v[1]): o.cells[off + i] = (1, b)
            return
        if v[0] == 'agg':
            if t[0] in ('array', 'vec'):
                s = m.size(t[2])
                for i, (et, ev) in enumerate(v[1]): self.init_mem(o, off + i * s, et, ev)
            else:
                for oo, (et, ev) in zip(m.layout(t)[2], v[1]): self.init_mem(o, off + oo, et, ev)
            return
        self.put(o, off, m.size(t), self.val(v, t, None))

    # ------------------------------------------------------------- values
    def val(self, v, t, regs):
        k = v[0]
        if k == 'r':
            return regs[v[1]]
        if k == 'n':
            if t[0] == 'i': return v[1] & ((1 << t[1]) - 1)
            return v[1]
        if k == 'f': return TM.from_double(v[1])
        if k == 'g': return self.global_ptr(v[1])
        if k == 'u': return UND
        if k == 'z': return self.zero(t)
        if k == 'agg': return [self.val(e, et, regs) for et, e in v[1]]
        if k == 'cgep':
            return self.gep(v[1], [(tt, self.val(x, tt, regs)) for tt, x in v[2]])
        if k == 'ccast':
            return self.cast(v[1], v[2], self.val(v[3], v[2], regs), v[4])
        if k == 'cbin':
            return self.binop(v[1], ('i', 64), self.val(v[2], ('i', 64), regs), self.val(v[3], ('i', 64), regs), [])
        if k == 'cicmp':
            return self.icmp(v[1], ('i', 64), self.val(v[2], PTR, regs), self.val(v[3], PTR, regs))
        if k == 's':
            return list(v[1])
        raise EngineError('val %r' % (v,))
    def zero(self, t):
        t = self.mod.resolve(t)
        if t[0] in ('double', 'float', 'x86_fp80'): return TM.ZERO
        if t[0] in ('array', 'vec'): return [self.zero(t[2]) for _ in range(t[1])]
        if t[0] == 'struct': return [self.zero(e) for e in t[1]]
        return 0
    def gep(self, bt, ops):
        p = ops[0][1]
        off = 0
        sym = None
        t = bt
        for i, (it, iv) in enumerate(ops[1:]):
            if i == 0: sz = self.mod.size(t) if not (isinstance(iv, int) and iv == 0) else 0
            else:
                t = self.mod.resolve(t)
                if t[0] == 'struct':
                    off += self.mod.layout(t)[2][iv]
                    t = t[1][iv]
                    continue
                t = t[2]; sz = self.mod.size(t)
            if isinstance(iv, int):
                off += sgn(iv, it[1]) * sz
            elif isinstance(iv, Term):
                x = TM.mul(const(sz), iv)
                sym = x if sym is None else TM.add(sym, x)
            else: 
                if sz: raise ImplicitFail('memory safety', 'uninitialised index in %s' % (self.where(),))
        if isinstance(p, Ptr):
            o = p[1]
            if sym is None and isinstance(o, int): return Ptr(p[0], o + off)
            base = o if isinstance(o, Term) else const(o)
            if sym is not None: base = TM.add(base, sym)
            base = TM.add(base, const(off))
            if TM.isc(base): return Ptr(p[0], int(base.args[0]))
            return Ptr(p[0], base)
        if isinstance(p, int):
            if sym is not None: raise EngineError('symbolic gep of int')
            return (p + off) & ((1 << 64) - 1)
        if isinstance(p, Undef): return UND
        if isinstance(p, Fn) and off == 0: return p
        raise EngineError('gep of %r' % (p,))

    def cast(self, op, t, v, t2):
        if isinstance(v, Undef): return UND
        if op in ('bitcast', 'addrspacecast'):
            if t2[0] == 'double' and isinstance(v, int): return self.coerce(v, t2, 8)
            if t[0] == 'double' and t2[0] == 'i' and isinstance(v, Term) and TM.isc(v):
                import struct
                return int.from_bytes(struct.pack('<d', float(v.args[0])), 'little')
            return v
        if op == 'ptrtoint': return v
        if op == 'inttoptr': return v
        if op == 'trunc':
            if isinstance(v, int): return v & ((1 << t2[1]) - 1)
            if isinstance(v, Term):
                if t2[1] == 1: return v if TM.isbool(v) else TM.cmp('ne', v, TM.ZERO)
                if TM.isbool(v): return v
                self.range_ob(v, t2[1], 'trunc')
                return v
            return v if t2[1] == 64 else self.bad('trunc of pointer')
        if op == 'zext':
            if isinstance(v, Term) and t[1] == 1:
                if not TM.isbool(v): return v
                if self.lazy_bool: return v
                return 1 if self.decide(v) else 0
            if isinstance(v, Term) and not TM.isbool(v):
                self.emit('no negative value zero-extended', 'bool', TM.cmp('le', TM.ZERO, v), None, {'implicit': True})
            return v
        if op == 'sext':
            if isinstance(v, int): return sgn(v, t[1]) & ((1 << t2[1]) - 1)
            return v
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, int): return const(sgn(v, t[1]) if op == 'sitofp' else v)
            if isinstance(v, Term) and TM.isbool(v): return const(1 if self.decide(v) else 0)
            return v
        if op in ('fptosi', 'fptoui'):
            if TM.isc(v):
                q = v.args[0]; n = int(q)
                return n & ((1 << t2[1]) - 1)
            return TM.fn('trunc', v)
        if op == 'fpext' : return v
        if op == 'fptrunc':
            if TM.isc(v): return v
            return v
        raise EngineError('cast ' + op)
    lazy_bool = True
    def bad(self, m): raise EngineError(m)
    def range_ob(self, v, w, what):
        lim = 1 << (w - 1)
        self.emit('no integer overflow (%s)' % what, 'bool', TM.band(TM.cmp('le', const(-lim), v), TM.cmp('lt', v, const(lim))), None, {'implicit': True})

    def asint(self, v, w):
        """int value as term (signed)"""
        if isinstance(v, int): return const(sgn(v, w))
        if isinstance(v, Term):
            if TM.isbool(v): return const(1 if self.decide(v) else 0)
            return v
        raise EngineError('asint %r' % (v,))

    def binop(self, op, t, a, b, flags):
        if isinstance(a, Undef) or isinstance(b, Undef):
            if t[0] == 'double':
                return UND
            return UND
        if op[0] == 'f':
            if isinstance(a, list):
                return [self.binop(op, t[2], x, y, flags) for x, y in zip(a, b)]
            if isinstance(a, int): a = self.coerce(a, DOUBLE, 8)
            if isinstance(b, int): b = self.coerce(b, DOUBLE, 8)
            if op == 'fadd': return TM.add(a, b)
            if op == 'fsub': return TM.sub(a, b)
            if op == 'fmul': return TM.mul(a, b)
            if op == 'fdiv': return TM.div(a, b)
            if TM.isc(a) and TM.isc(b):
                q = a.args[0] / b.args[0]
                return const(a.args[0] - int(q) * b.args[0])
            return TM.fn('fmod', a, b)
        w = t[1]; mask = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add': r = a + b
            elif op == 'sub': r = a - b
            elif op == 'mul': r = a * b
            elif op == 'and': r = a & b
            elif op == 'or': r = a | b
            elif op == 'xor': r = a ^ b
            elif op == 'shl': r = a << b if b < w else 0
            elif op == 'lshr': r = a >> b if b < w else 0
            elif op == 'ashr': r = sgn(a, w) >> min(b, w - 1)
            elif op in ('udiv', 'urem'):
                if b == 0: raise ImplicitFail('no division by zero', 'integer division by zero in %s' % (self.where(),))
                r = a // b if op == 'udiv' else a % b
            else:
                x, y = sgn(a, w), sgn(b, w)
                if y == 0: raise ImplicitFail('no division by zero', 'integer division by zero in %s' % (self.where(),))
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                r = q if op == 'sdiv' else x - q * y
            if 'nsw' in flags and op in ('add', 'sub', 'mul'):
                x, y = sgn(a, w), sgn(b, w)
                s = x + y if op == 'add' else x - y if op == 'sub' else x * y
                if not -(1 << (w - 1)) <= s < (1 << (w - 1)):
                    raise ImplicitFail('no signed overflow', 'signed overflow in %s' % (self.where(),))
            return r & mask
        # pointers
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a[0] != b[0]: 
                    raise EngineError('pointer difference between objects')
                x, y = a[1], b[1]
                if isinstance(x, int) and isinstance(y, int): return (x - y) & mask
                return TM.sub(x if isinstance(x, Term) else const(x), y if isinstance(y, Term) else const(y))
            if op in ('add', 'sub') and isinstance(a, Ptr) and isinstance(b, int):
                d = sgn(b, w)
                return Ptr(a[0], a[1] + (d if op == 'add' else -d)) if isinstance(a[1], int) else Ptr(a[0], TM.add(a[1], const(d if op == 'add' else -d)))
            if op == 'add' and isinstance(b, Ptr) and isinstance(a, int): return Ptr(b[0], b[1] + sgn(a, w))
            if op == 'and' and isinstance(b, int) and isinstance(a, Ptr):
                if b in (1, 3, 7) and isinstance(a[1], int): return a[1] & b
            if op == 'urem' and isinstance(b, int) and isinstance(a, Ptr): return a[1] % b
            raise EngineError('pointer arithmetic %s' % op)
        if isinstance(a, Fn) or isinstance(b, Fn):
            if op == 'and': return 0
            raise EngineError('fn arithmetic')
        # booleans
        ab = isinstance(a, Term) and TM.isbool(a); bb = isinstance(b, Term) and TM.isbool(b)
        if (ab or bb) and (w == 1 or op in ('and', 'or', 'xor')):
            x = a if ab else self.tobool(a)
            y = b if bb else self.tobool(b)
            if op == 'and': return TM.band(x, y)
            if op == 'or': return TM.bor(x, y)
            if op == 'xor':
                if y is TM.TRUE: return TM.bnot(x)
                if x is TM.TRUE: return TM.bnot(y)
                if y is TM.FALSE: return x
                if x is TM.FALSE: return y
                return 1 if self.decide(x) != self.decide(y) else 0
        if ab or bb:
            if ab: a = 1 if self.decide(a) else 0
            if bb: b = 1 if self.decide(b) else 0
            return self.binop(op, t, a, b, flags)
        a = self.asint(a, w); b = self.asint(b, w)
        if op == 'add': r = TM.add(a, b)
        elif op == 'sub': r = TM.sub(a, b)
        elif op == 'mul': r = TM.mul(a, b)
        elif op == 'shl' and TM.isc(b): r = TM.mul(a, const(1 << int(b.args[0])))
        elif op in ('sdiv', 'srem', 'udiv', 'urem'):
            if op[0] == 'u': self.emit('unsigned operands nonnegative', 'bool', TM.band(TM.cmp('le', TM.ZERO, a), TM.cmp('lt', TM.ZERO, b)), None, {'implicit': True})
            else: self.emit('no division by zero', 'bool', TM.cmp('ne', b, TM.ZERO), None, {'implicit': True})
            r = TM.iop('idiv' if op[1:] == 'div' else 'imod', a, b)
        elif op == 'ashr' and TM.isc(b):
            # exact shifts of byte differences only
            from .lin import lindiv
            r = lindiv(a, 1 << int(b.args[0]))
            if r is None: r = TM._mk('ifloordiv', a, const(1 << int(b.args[0])))
        elif op == 'and' and TM.isc(b) and b.args[0] == 1: r = TM.iop('imod', a, const(2))
        else: raise EngineError('symbolic int op ' + op)
        if TM.isc(r): return int(r.args[0]) & mask
        if op in ('add', 'sub', 'mul', 'shl'): self.range_ob(r, w, op)
        return r
    def tobool(self, x):
        if isinstance(x, int): return TM.bconst(x & 1)
        return TM.cmp('ne', x, TM.ZERO)

    def ptrkey(self, p): return p
    def icmp(self, pred, t, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef): return UND
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a[0] == b[0]:
                x, y = a[1], b[1]
                if isinstance(x, int) and isinstance(y, int):
                    return self.icmp(pred.replace('u', 's') if pred[0] == 'u' else pred, ('i', 64), x & (2**64 - 1), y & (2**64 - 1))
                x = x if isinstance(x, Term) else const(x); y = y if isinstance(y, Term) else const(y)
                return self.cmpterm(pred, x, y)
            if pred in ('eq', 'ne'):
                e = (a == b) if type(a) == type(b) else False
                return int(e == (pred == 'eq'))
            # unrelated pointers: order by object id
            ka = a[0] if isinstance(a, Ptr) else 0; kb = b[0] if isinstance(b, Ptr) else 0
            return self.icmp(pred, ('i', 64), ka, kb)
        w = t[1] if t[0] == 'i' else 64
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's': a, b = sgn(a, w), sgn(b, w)
            p = pred[-2:]
            return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p])
        # booleans
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Term) and TM.isbool(x) and isinstance(y, int) and pred in ('eq', 'ne'):
                r = x if y & 1 else TM.bnot(x)
                return r if pred == 'eq' else TM.bnot(r)
        if isinstance(a, Term) and TM.isbool(a): a = 1 if self.decide(a) else 0
        if isinstance(b, Term) and TM.isbool(b): b = 1 if self.decide(b) else 0
        if isinstance(a, int) and isinstance(b, int): return self.icmp(pred, t, a, b)
        a = self.asint(a, w); b = self.asint(b, w)
        if pred[0] == 'u':
            for x in (a, b):
                if not TM.isc(x):
                    self.emit('unsigned comparison of a nonnegative value', 'bool', TM.cmp('le', TM.ZERO, x), None, {'implicit': True})
        return self.cmpterm(pred, a, b)
    def cmpterm(self, pred, a, b):
        p = pred[-2:]
        r = TM.cmp(p, a, b)
        if r is TM.TRUE: return 1
        if r is TM.FALSE: return 0
        return r
    def fcmp(self, pred, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef): return UND
        if pred == 'true': return 1
        if pred == 'false': return 0
        nan = (a.op == 'v' and a.args[0] == '#nan') or (b.op == 'v' and b.args[0] == '#nan')
        if nan: return 1 if pred[0] == 'u' else 0
        for s, x, y in ((1, a, b), (-1, b, a)):
            inf = 1 if (x.op == 'v' and x.args[0] == '#inf') else -1 if (x.op == 'neg' and x.args[0].op == 'v' and x.args[0].args[0] == '#inf') else 0
            if inf and pred not in ('ord', 'uno') and not (y is x):
                s2 = s * inf   # >0 : a > b
                p = pred[1:]
                return int({'eq': False, 'ne': True, 'gt': s2 > 0, 'ge': s2 > 0, 'lt': s2 < 0, 'le': s2 < 0}[p])
        if pred == 'ord': return 1
        if pred == 'uno': return 0
        if isinstance(a, int): a = self.coerce(a, DOUBLE, 8)
        if isinstance(b, int): b = self.coerce(b, DOUBLE, 8)
        return self.cmpterm(pred[1:], a, b)

    # ------------------------------------------------------------- calls
    def call_function(self, name, args):
        name = self.mod.canon(name)
        con = self.contracts.get(name)
        if con is not None and not (self.stack and con == self.stack[-1].fn.name) and not self.in_contract(name):
            if callable(con): return con(self, args)
            self.ext_used.add('contract:' + self.demangled.get(name, name))
            self.contract_active.append(name)
            try: return self.call_function(con, args)
            finally: self.contract_active.pop()
        from .models import lookup
        h = lookup(self, name)
        if h is not None:
            return h(self, args)
        if name not in self.mod.funcs:
            raise EngineError('no contract or model for external function %s [%s]' % (self.demangled.get(name, name), name))
        return self.exec_body(name, args)
    contract_active = []
    def in_contract(self, name): return name in self.contract_active

    def exec_body(self, name, args):
        fn = self.mod.function(name)
        self.called.add(name)
        fr = Frame()
        fr.fn = fn; fr.regs = {}; fr.allocas = []; fr.prev = None; fr.heads = {}
        self.frameuid += 1; fr.uid = self.frameuid
        if len(args) < len(fn.params): raise EngineError('arity ' + name)
        for p, a, bv, pt in zip(fn.params, args, fn.byval, fn.ptypes): fr.regs[p] = a
        if len(self.stack) > 400: raise EngineError('recursion too deep in ' + self.demangled.get(name, name))
        self.stack.append(fr)
        nc = len(self.contract_active)
        try:
            return self.run_frame(fr)
        finally:
            self.stack.pop()
            del self.contract_active[nc:]
            for oid in fr.allocas: self.objs[oid].live = False

    def run_frame(self, fr):
        fn = fr.fn
        regs = fr.regs
        label = fn.entry
        blocks = fn.blocks
        if not blocks[label]:
            # entry labelled explicitly
            label = list(blocks)[1]
        while True:
            label = self.enter_block(fr, label)
            blk = fn.block(label)
            nxt = None
            # phis first
            i = 0
            if blk and blk[0][0] == 'phi':
                upd = []
                while blk[i][0] == 'phi':
                    ins = blk[i]
                    pv = fr.prev
                    if pv not in ins[3]: pv = str(len(fn.params))
                    upd.append((ins[1], self.val(ins[3][pv], ins[2], regs)))
                    i += 1
                for d, v in upd: regs[d] = v
            n = len(blk)
            while i < n:
                ins = blk[i]; i += 1
                self.steps += 1
                op = ins[0]
                if op == 'load':
                    regs[ins[1]] = self.load(self.val(ins[3], PTR, regs), ins[2])
                elif op == 'store':
                    self.store(self.val(ins[4], PTR, regs), ins[2], self.val(ins[3], ins[2], regs))
                elif op == 'gep':
                    regs[ins[1]] = self.gep(ins[2], [(t, self.val(v, t, regs)) for t, v in ins[3]])
                elif op == 'bin':
                    regs[ins[1]] = self.binop(ins[2], ins[3], self.val(ins[4], ins[3], regs), self.val(ins[5], ins[3], regs), ins[6])
                elif op == 'call':
                    r = self.do_call(fr, ins)
                    if r is not None and isinstance(r, tuple) and len(r) == 2 and r[0] == '#jump':
                        nxt = r[1]; break
                    if ins[1] is not None: regs[ins[1]] = r
                elif op == 'alloca':
                    cnt = self.val(ins[3], ('i', 32), regs)
                    if isinstance(cnt, Term): raise EngineError('symbolic alloca')
                    o = self.alloc(self.mod.size(ins[2]) * cnt, '%s:%s' % (fn.name, ins[1]), 'stack')
                    o.ty = ins[2]
                    fr.allocas.append(o.id)
                    regs[ins[1]] = Ptr(o.id, 0)
                elif op == 'br':
                    c = self.val(ins[2], ('i', 1), regs)
                    nxt = ins[3] if self.decide(c) else ins[4]
                    break
                elif op == 'jmp':
                    nxt = ins[2]; break
                elif op == 'icmp':
                    regs[ins[1]] = self.icmp(ins[2], ins[3], self.val(ins[4], ins[3], regs), self.val(ins[5], ins[3], regs))
                elif op == 'fcmp':
                    regs[ins[1]] = self.fcmp(ins[2], self.val(ins[4], ins[3], regs), self.val(ins[5], ins[3], regs))
                elif op == 'cast':
                    regs[ins[1]] = self.cast(ins[2], ins[3], self.val(ins[4], ins[3], regs), ins[5])
                elif op == 'fneg':
                    v = self.val(ins[3], ins[2], regs)
                    regs[ins[1]] = UND if isinstance(v, Undef) else ([TM.neg(x) for x in v] if isinstance(v, list) else TM.neg(v))
                elif op == 'ret':
                    if ins[2] is None: return None
                    return self.val(ins[3], ins[2], regs)
                elif op == 'switch':
                    v = self.val(ins[3], ins[2], regs)
                    nxt = ins[4]
                    if isinstance(v, Undef): raise ImplicitFail('no branch on an uninitialised value', 'switch on undef in %s' % (self.where(),))
                    if isinstance(v, int):
                        w = ins[2][1]
                        for cv, l in ins[5]:
                            if cv & ((1 << w) - 1) == v: nxt = l; break
                    else:
                        for cv, l in ins[5]:
                            if self.decide(TM.cmp('eq', v, const(cv))): nxt = l; break
                    break
                elif op == 'select':
                    c = self.val(ins[2], ('i', 1), regs)
                    regs[ins[1]] = self.val(ins[4], ins[3], regs) if self.decide(c) else self.val(ins[5], ins[3], regs)
                elif op == 'extractvalue':
                    v = self.val(ins[2], None, regs)
                    for k in ins[3]:
                        v = UND if isinstance(v, Undef) else v[k]
                    regs[ins[1]] = v
                elif op == 'insertvalue':
                    v = self.val(ins[3], ins[2], regs)
                    if isinstance(v, Undef): v = self.undef_agg(ins[2])
                    regs[ins[1]] = self.insert(v, ins[5], self.val(ins[4], ('i', 64), regs))
                elif op == 'landingpad':
                    ex = self.exn_stack[-1]
                    sel = 0
                    for w, cv in ins[3]:
                        ti = self.val(cv, PTR, regs)
                        if ti == 0: sel = 1; break
                        if self.ti_match(ex.ti, ti): sel = self.typeid(ti); break
                    regs[ins[1]] = [ex.obj, sel]
                elif op == 'resume':
                    ex = self.exn_stack.pop()
                    raise ex
                elif op == 'unreachable':
                    raise PathEnd('unreachable')
                elif op == 'atomicrmw':
                    p = self.val(ins[4], PTR, regs); old = self.load(p, ins[3]); x = self.val(ins[5], ins[3], regs)
                    if ins[2] == 'xchg': new = x
                    else: new = self.binop(ins[2], ins[3], old, x, [])
                    self.store(p, ins[3], new); regs[ins[1]] = old
                elif op == 'freeze': regs[ins[1]] = self.val(ins[3], ins[2], regs)
                elif op == 'extractelement':
                    v = self.val(ins[2], None, regs); regs[ins[1]] = v[self.val(ins[3], ('i', 32), regs)]
                elif op == 'insertelement':
                    v = self.val(ins[3], ins[2], regs)
                    if isinstance(v, Undef): v = [UND] * ins[2][1]
                    v = list(v); v[self.val(ins[5], ('i', 32), regs)] = self.val(ins[4], ins[2][2], regs)
                    regs[ins[1]] = v
                elif op == 'nop': pass
                else: raise EngineError('instr ' + op)
            if self.steps > self.MAXSTEP: raise EngineError('step limit')
            if nxt is None: raise EngineError('fell off block %s in %s' % (label, fn.name))
            fr.prev = label
            label = nxt

    def enter_block(self, fr, label):
        c = fr.heads.get(label, 0) + 1
        fr.heads[label] = c
        if c > 200000: raise EngineError('loop unrolled too often in %s' % self.demangled.get(fr.fn.name))
        return label
    def undef_agg(self, t):
        t = self.mod.resolve(t)
        if t[0] == 'struct': return [self.undef_agg(e) for e in t[1]]
        if t[0] in ('array', 'vec'): return [self.undef_agg(t[2]) for _ in range(t[1])]
        return UND
    def insert(self, agg, ix, v):
        agg = list(agg)
        if len(ix) == 1: agg[ix[0]] = v
        else: agg[ix[0]] = self.insert(agg[ix[0]], ix[1:], v)
        return agg

    def typeid(self, ti):
        return 2 + ti[0]
    def ti_match(self, thrown, catch):
        if thrown == catch: return True
        try:
            o = self.objs[thrown[0]]
            if o.kind == 'global-init': self.init_global(o)
            name = o.name
            # __si_class_type_info: {vptr, name, base}
            if o.size == 24:
                b = self.load(Ptr(thrown[0], 16), PTR)
                if isinstance(b, Ptr): return self.ti_match(b, catch)
            elif o.size > 24:  # vmi
                n = self.load(Ptr(thrown[0], 20), ('i', 32))
                for i in range(n):
                    b = self.load(Ptr(thrown[0], 24 + 16 * i), PTR)
                    if isinstance(b, Ptr) and self.ti_match(b, catch): return True
            elif o.kind == 'extern':
                c = self.objs[catch[0]].name; n = o.name
                while n is not None:
                    if n == c: return True
                    n = STD_BASE.get(n)
                return c == '_ZTISt9exception' and (o.name.startswith('_ZTISt') or o.name.startswith('_ZTINSt'))
        except Exception:
            pass
        return False

    def do_call(self, fr, ins):
        _, dest, rt, fnv, args, ok, unwind = ins
        regs = fr.regs
        f = self.val(fnv, PTR, regs)
        if isinstance(f, Undef) or isinstance(f, int):
            raise ImplicitFail('memory safety', 'call through null/uninitialised function pointer in %s' % (self.where(),))
        if isinstance(f, Ptr): raise EngineError('call through data pointer')
        name = f.name
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime'):
            return None if ok is None else ('#jump', ok)
        av = []
        for t, v, bv in args:
            x = self.val(v, t, regs)
            if bv is not None:
                o = self.alloc(self.mod.size(bv), 'byval', 'stack'); fr.allocas.append(o.id)
                q = Ptr(o.id, 0)
                self.memcpy(q, x, self.mod.size(bv))
                x = q
            av.append(x)
        if unwind is None:
            return self.call_function(name, av)
        depth = len(self.stack)
        try:
            r = self.call_function(name, av)
        except CppThrow as e:
            assert len(self.stack) == depth
            self.exn_stack.append(e)
            return ('#jump', unwind)
        if dest is not None: regs[dest] = r
        return ('#jump', ok)

class PathResult:
    def __init__(self, ex, kind, info):
        self.kind = kind; self.info = info
        self.pc = list(ex.pc); self.obls = ex.obls; self.inputs = list(ex.inputs)
        self.covers = list(ex.covers); self.nchecks = ex.nchecks; self.steps = ex.steps
        for o in self.obls: o.inputs = self.inputs
