"""Parser for the textual LLVM IR that clang-18 -O0 emits (opaque pointers)."""
import re, struct

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#\d+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?)
 | (?P<word>[-a-zA-Z_$.][-a-zA-Z_$.0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<punc>[\[\]{}()<>,=*:|])
 | (?P<ws>\s+)
 | (?P<comment>;.*)
''', re.X)

class ParseError(Exception): pass

def tokenize(s):
    out = []; pos = 0; n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m: raise ParseError('tok at %r' % s[pos:pos + 40])
        k = m.lastgroup; pos = m.end()
        if k == 'comment': break
        if k == 'ws': continue
        v = m.group()
        if k in ('loc', 'glob') and len(v) > 1 and v[1] == '"':
            v = v[0] + v[2:-1]
        out.append((k, v))
    return out

class Toks:
    def __init__(self, toks): self.t = toks; self.i = 0
    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None
    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None
    def next(self):
        v = self.t[self.i]; self.i += 1; return v[1]
    def accept(self, v):
        if self.peek() == v: self.i += 1; return True
        return False
    def expect(self, v):
        g = self.next()
        if g != v: raise ParseError('expected %s got %s in %s' % (v, g, ' '.join(x[1] for x in self.t[:60])))
    def eof(self): return self.i >= len(self.t)

PTR = ('ptr',); DOUBLE = ('double',); VOID = ('void',); I1 = ('i', 1); I64 = ('i', 64)

ATTRS = set('''zeroext signext inreg noalias nocapture nonnull noundef returned nest readonly readnone writeonly
immarg swiftself swifterror noinline alwaysinline nounwind dso_local local_unnamed_addr unnamed_addr tail musttail notail
fast nnan ninf nsz arcp contract afn reassoc linkonce_odr linkonce weak weak_odr internal private external available_externally
hidden protected default thread_local comdat inbounds nuw nsw exact volatile ccc fastcc coldcc common extern_weak disjoint nneg inalloca swiftasync allocptr allocalign writable dead_on_unwind'''.split())

class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}    # name -> raw line
        self.funcs = {}      # name -> (header, [lines])
        self.decls = set()
        self.aliases = {}
        self.attr = {}
        self._ly = {}
        self._fparsed = {}
        self.ctors = None
        self.split(text)

    def split(self, text):
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if not l: i += 1; continue
            c = l[0]
            if c == '%':
                m = re.match(r'%("[^"]*"|[-a-zA-Z$._0-9]+) = type (.*)$', l)
                nm = m.group(1)
                if nm[0] == '"': nm = nm[1:-1]
                self.types[nm] = m.group(2)
            elif c == '@':
                m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', l)
                nm = m.group(1)
                if nm[0] == '"': nm = nm[1:-1]
                rest = m.group(2)
                if re.search(r'\balias\b', rest.split('"')[0]) and ' alias ' in ' ' + rest:
                    tgt = re.findall(r'@("[^"]*"|[-a-zA-Z$._0-9]+)', rest)[-1].strip('"')
                    self.aliases[nm] = tgt
                else:
                    self.globals[nm] = rest
            elif l.startswith('define'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                nm = m.group(1).strip('"')
                j = i + 1
                while lines[j] != '}': j += 1
                self.funcs[nm] = (l, lines[i + 1:j])
                i = j
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                self.decls.add(m.group(1).strip('"'))
            i += 1

    # ---------------------------------------------------------------- types
    def parse_type(self, T):
        k = T.kind(); v = T.next()
        if k == 'word':
            if v == 'ptr':
                t = PTR
                if T.peek() == 'addrspace':
                    T.next(); T.next(); T.next(); T.next()
            elif v == 'double': t = DOUBLE
            elif v == 'float': t = ('float',)
            elif v == 'x86_fp80': t = ('x86_fp80',)
            elif v == 'fp128': t = ('fp128',)
            elif v == 'void': t = VOID
            elif v == 'label': t = ('label',)
            elif v == 'metadata': t = ('metadata',)
            elif v == 'token': t = ('token',)
            elif v == 'opaque': t = ('opaque',)
            elif re.match(r'i\d+$', v): t = ('i', int(v[1:]))
            else: raise ParseError('type ' + v)
        elif k == 'loc': t = ('named', v[1:])
        elif v == '[':
            n = int(T.next()); T.expect('x'); e = self.parse_type(T); T.expect(']')
            t = ('array', n, e)
        elif v == '<':
            if T.peek() == '{':
                T.next(); el = []
                while T.peek() != '}':
                    el.append(self.parse_type(T)); T.accept(',')
                T.next(); T.expect('>')
                t = ('struct', tuple(el), True)
            else:
                n = int(T.next()); T.expect('x'); e = self.parse_type(T); T.expect('>')
                t = ('vec', n, e)
        elif v == '{':
            el = []
            while T.peek() != '}':
                el.append(self.parse_type(T)); T.accept(',')
            T.next()
            t = ('struct', tuple(el), False)
        else: raise ParseError('type tok ' + v)
        # function type  "void (ptr, ...)"
        while T.peek() == '(' and k != 'punc_':
            # only in call instructions / aliases
            save = T.i
            T.next(); args = []
            ok = True
            try:
                while T.peek() != ')':
                    if T.accept('...'): args.append('...')
                    else: args.append(self.parse_type(T))
                    T.accept(',')
                T.next()
            except ParseError:
                ok = False
            if not ok: T.i = save; break
            t = ('func', t, tuple(args))
        return t

    def resolve(self, t):
        while t[0] == 'named':
            d = self.types[t[1]]
            if isinstance(d, str):
                d = self.parse_type(Toks(tokenize(d)))
                self.types[t[1]] = d
            t = d
        return t

    def layout(self, t):
        """(size, align, offsets)"""
        r = self._ly.get(t)
        if r is None:
            r = self._layout(t); self._ly[t] = r
        return r
    def _layout(self, t):
        k = t[0]
        if k == 'named': return self.layout(self.resolve(t))
        if k == 'i':
            n = (t[1] + 7) // 8
            s = 1
            while s < n: s *= 2
            return (s, min(s, 16), None)
        if k == 'ptr': return (8, 8, None)
        if k == 'double': return (8, 8, None)
        if k == 'float': return (4, 4, None)
        if k == 'x86_fp80': return (16, 16, None)
        if k == 'array':
            s, a, _ = self.layout(t[2]); return (s * t[1], a, None)
        if k == 'vec':
            s, a, _ = self.layout(t[2]); return (s * t[1], s * t[1], None)
        if k == 'struct':
            off = 0; al = 1; offs = []
            for e in t[1]:
                s, a, _ = self.layout(e)
                if t[2]: a = 1
                off = (off + a - 1) // a * a
                offs.append(off); off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return (off, al, offs)
        if k == 'opaque': return (0, 1, None)
        raise ParseError('layout %r' % (t,))
    def size(self, t): return self.layout(t)[0]

    # ------------------------------------------------------------ functions
    def canon(self, name):
        while name in self.aliases and name not in self.funcs: name = self.aliases[name]
        return name
    def function(self, name):
        f = self._fparsed.get(name)
        if f is None:
            hdr, lines = self.funcs[name]
            f = Function(self, name, hdr, lines)
            self._fparsed[name] = f
        return f

    def skip_attrs(self, T):
        """skip parameter / call attributes"""
        while True:
            k = T.kind(); v = T.peek()
            if v is None: return
            if k == 'word' and v in ATTRS: T.next(); continue
            if v == 'align' :
                T.next()
                if T.peek() == '(':
                    T.next(); T.next(); T.next()
                else: T.next()
                continue
            if v in ('dereferenceable', 'dereferenceable_or_null', 'allocsize', 'memory', 'preallocated', 'nofpclass', 'captures', 'range', 'initializes', 'vscale_range'):
                T.next(); self.skip_paren(T); continue
            if v in ('byval', 'sret', 'byref', 'elementtype', 'inalloca'):
                T.next()
                if T.peek() == '(': self.skip_paren(T)
                continue
            if k == 'attr': T.next(); continue
            if k == 'str': T.next(); continue
            return
    def skip_paren(self, T):
        T.expect('('); d = 1
        while d:
            v = T.next()
            if v == '(': d += 1
            elif v == ')': d -= 1

    # operand:  returns ('r',name) | ('k', const-tree)
    def parse_value(self, T, ty):
        k = T.kind(); v = T.next()
        if k == 'loc': return ('r', v[1:])
        if k == 'glob': return ('g', v[1:])
        if k == 'num':
            if ty[0] in ('double', 'float', 'x86_fp80'): return ('f', float(v))
            return ('n', int(v))
        if k == 'hex':
            if v[2] in 'KLMHR':
                if v[2] == 'K': return ('f', fp80(v[3:]))
                raise ParseError('fp const ' + v)
            return ('f', struct.unpack('>d', int(v[2:], 16).to_bytes(8, 'big'))[0])
        if k == 'str':
            return ('s', unescape(v))
        if v == 'true': return ('n', 1)
        if v == 'false': return ('n', 0)
        if v == 'null': return ('n', 0)
        if v == 'zeroinitializer': return ('z',)
        if v in ('undef', 'poison'): return ('u',)
        if v == 'none': return ('u',)
        if v == '{' or v == '[' or v == '<':
            close = {'{': '}', '[': ']', '<': '>'}[v]
            if v == '<' and T.peek() == '{':
                T.next(); el = self.parse_elems(T, '}'); T.expect('>')
                return ('agg', el)
            return ('agg', self.parse_elems(T, close))
        if v == 'getelementptr':
            while T.peek() in ('inbounds', 'nuw', 'inrange', 'nusw'): T.next()
            T.expect('(')
            bt = self.parse_type(T); T.expect(',')
            ops = []
            while True:
                while T.peek() in ('inrange',):
                    T.next()
                    if T.peek() == '(': self.skip_paren(T)
                t = self.parse_type(T); ops.append((t, self.parse_value(T, t)))
                if not T.accept(','): break
            T.expect(')')
            return ('cgep', bt, ops)
        if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
            T.expect('('); t = self.parse_type(T); x = self.parse_value(T, t); T.expect('to')
            t2 = self.parse_type(T); T.expect(')')
            return ('ccast', v, t, x, t2)
        if v in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'shl'):
            while T.peek() in ('nuw', 'nsw', 'exact'): T.next()
            T.expect('('); t = self.parse_type(T); a = self.parse_value(T, t); T.expect(',')
            t2 = self.parse_type(T); b = self.parse_value(T, t2); T.expect(')')
            return ('cbin', v, a, b)
        if v == 'icmp':
            p = T.next(); T.expect('('); t = self.parse_type(T); a = self.parse_value(T, t); T.expect(',')
            t2 = self.parse_type(T); b = self.parse_value(T, t2); T.expect(')')
            return ('cicmp', p, a, b)
        if v == 'blockaddress': self.skip_paren(T); return ('u',)
        if v == 'dso_local_equivalent' or v == 'no_cfi': return ('g', T.next()[1:])
        if k == 'meta': return ('u',)
        raise ParseError('value %s %s in %s' % (k, v, ' '.join(x[1] for x in T.t[:40])))
    def parse_elems(self, T, close):
        el = []
        while T.peek() != close:
            t = self.parse_type(T); el.append((t, self.parse_value(T, t)))
            T.accept(',')
        T.next()
        return el

    def parse_global(self, name):
        """(type, init or None, is_const)"""
        rest = self.globals[name]
        T = Toks(tokenize(rest))
        ext = False
        while True:
            v = T.peek()
            if v in ('global', 'constant'): break
            if v in ('external', 'extern_weak'): ext = True
            T.next()
            if v == 'thread_local' and T.peek() == '(': self.skip_paren(T)
        isc = T.next() == 'constant'
        t = self.parse_type(T)
        if ext: return (t, None, isc)
        return (t, self.parse_value(T, t), isc)

def fp80(h):
    b = int(h, 16)
    sign = -1 if b >> 79 else 1
    e = (b >> 64) & 0x7fff
    m = b & ((1 << 64) - 1)
    if e == 0 and m == 0: return 0.0
    return sign * m * 2.0 ** (e - 16383 - 63)

def unescape(v):
    s = v[v.index('"') + 1:-1]
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return bytes(out)

class Function:
    def __init__(self, mod, name, hdr, lines):
        self.name = name
        self.mod = mod
        h = hdr[:hdr.rindex('{')]
        T = Toks(tokenize(h)); T.next()
        while True:
            mod.skip_attrs(T)
            v = T.peek()
            if v in ('comdat',): T.next(); continue
            break
        # return attributes may appear
        self.ret = self._rtype(T)
        T.next()  # name
        T.expect('(')
        self.params = []; self.ptypes = []; self.byval = []
        while T.peek() != ')':
            if T.accept('...'): continue
            t = mod.parse_type(T)
            bv = False
            s0 = T.i
            mod.skip_attrs(T)
            for j in range(s0, T.i):
                if T.t[j][1] == 'byval': bv = True
            if T.kind() == 'loc': nm = T.next()[1:]
            else: nm = str(len(self.params))
            self.params.append(nm); self.ptypes.append(t); self.byval.append(bv)
            T.accept(',')
        self.blocks = {}
        self.order = []
        first = str(len(self.params)) if all(p == str(i) for i, p in enumerate(self.params)) else None
        cur = None
        i = 0
        # entry label is implicit: number = count of unnamed args
        label = None
        buf = []
        joined = []
        # join multi-line instructions (switch, landingpad, invoke)
        j = 0
        L = []
        while j < len(lines):
            l = lines[j]
            st = l.strip()
            if st.startswith('switch') or ' switch ' in l[:12]:
                while not lines[j].strip().endswith(']') and ']' not in lines[j].strip()[-60:]:
                    j += 1; l += ' ' + lines[j].strip()
                    if lines[j].strip().startswith(']'): break
            elif re.search(r'(^|= )invoke ', st):
                j += 1; l += ' ' + lines[j].strip()
            elif '= landingpad' in st:
                while j + 1 < len(lines) and re.match(r'\s+(cleanup|catch|filter)\b', lines[j + 1]):
                    j += 1; l += ' ' + lines[j].strip()
            L.append(l); j += 1
        cur = '%entry'
        self.entry = cur
        blk = []
        self.blocks[cur] = blk
        self.raw = self.blocks
        for l in L:
            if not l.strip(): continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
            if m:
                cur = m.group(1).strip('"')
                blk = []
                self.blocks[cur] = blk
                continue
            blk.append(l)
        self.compiled = {}
    def _rtype(self, T):
        m = self.mod
        m.skip_attrs(T)
        # don't treat '(' as function type: name follows the type
        return m.parse_type(T)
    def block(self, label):
        b = self.compiled.get(label)
        if b is None:
            b = [parse_instr(self.mod, l) for l in self.blocks[label]]
            self.compiled[label] = b
        return b

BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast',
        'ptrtoint', 'inttoptr', 'addrspacecast'}

def parse_instr(mod, line):
    T = Toks(tokenize(line))
    dest = None
    if T.kind() == 'loc' and T.peek(1) == '=':
        dest = T.next()[1:]; T.next()
    op = T.next()
    while op in ('tail', 'musttail', 'notail'): op = T.next()
    if op in BIN:
        flags = []
        while T.peek() in ATTRS: flags.append(T.next())
        t = mod.parse_type(T); a = mod.parse_value(T, t); T.expect(','); b = mod.parse_value(T, t)
        return ('bin', dest, op, t, a, b, flags)
    if op == 'fneg':
        while T.peek() in ATTRS: T.next()
        t = mod.parse_type(T); return ('fneg', dest, t, mod.parse_value(T, t))
    if op in CAST:
        while T.peek() in ATTRS: T.next()
        t = mod.parse_type(T); a = mod.parse_value(T, t); T.expect('to'); t2 = mod.parse_type(T)
        return ('cast', dest, op, t, a, t2)
    if op == 'alloca':
        T.accept('inalloca')
        t = mod.parse_type(T); n = ('n', 1)
        if T.accept(','):
            if T.peek() != 'align':
                tt = mod.parse_type(T); n = mod.parse_value(T, tt)
        return ('alloca', dest, t, n)
    if op == 'load':
        T.accept('atomic'); T.accept('volatile')
        t = mod.parse_type(T); T.expect(','); pt = mod.parse_type(T); p = mod.parse_value(T, pt)
        return ('load', dest, t, p)
    if op == 'store':
        T.accept('atomic'); T.accept('volatile')
        t = mod.parse_type(T); v = mod.parse_value(T, t); T.expect(','); pt = mod.parse_type(T)
        return ('store', None, t, v, mod.parse_value(T, pt))
    if op == 'getelementptr':
        while T.peek() in ('inbounds', 'nuw', 'nusw'): T.next()
        bt = mod.parse_type(T); T.expect(',')
        ops = []
        while True:
            t = mod.parse_type(T); ops.append((t, mod.parse_value(T, t)))
            if not T.accept(','): break
            if T.kind() == 'meta': break
        return ('gep', dest, bt, ops)
    if op in ('icmp', 'fcmp'):
        while T.peek() in ATTRS: T.next()
        p = T.next()
        t = mod.parse_type(T); a = mod.parse_value(T, t); T.expect(','); b = mod.parse_value(T, t)
        return (op, dest, p, t, a, b)
    if op == 'br':
        if T.peek() == 'label':
            T.next(); return ('jmp', None, T.next()[1:])
        t = mod.parse_type(T); c = mod.parse_value(T, t); T.expect(','); T.expect('label'); a = T.next()[1:]
        T.expect(','); T.expect('label'); b = T.next()[1:]
        return ('br', None, c, a, b)
    if op == 'switch':
        t = mod.parse_type(T); c = mod.parse_value(T, t); T.expect(','); T.expect('label'); d = T.next()[1:]
        T.expect('['); cases = []
        while T.peek() != ']':
            tt = mod.parse_type(T); v = mod.parse_value(T, tt); T.expect(','); T.expect('label'); cases.append((v[1], T.next()[1:]))
        return ('switch', None, t, c, d, cases)
    if op == 'ret':
        t = mod.parse_type(T)
        if t == VOID: return ('ret', None, None, None)
        return ('ret', None, t, mod.parse_value(T, t))
    if op == 'unreachable': return ('unreachable', None)
    if op == 'phi':
        while T.peek() in ATTRS: T.next()
        t = mod.parse_type(T); inc = []
        while True:
            T.expect('['); v = mod.parse_value(T, t); T.expect(','); l = T.next()[1:]; T.expect(']')
            inc.append((l, v))
            if not T.accept(','): break
            if T.kind() == 'meta': break
        return ('phi', dest, t, dict(inc))
    if op == 'select':
        while T.peek() in ATTRS: T.next()
        t = mod.parse_type(T); c = mod.parse_value(T, t); T.expect(',')
        t1 = mod.parse_type(T); a = mod.parse_value(T, t1); T.expect(',')
        t2 = mod.parse_type(T); b = mod.parse_value(T, t2)
        return ('select', dest, c, t1, a, b)
    if op in ('call', 'invoke'):
        mod.skip_attrs(T)
        rt = mod.parse_type(T)
        if rt[0] == 'func': rt = rt[1]
        k = T.kind()
        if k == 'word' and T.peek() == 'asm':
            return ('asm', dest)
        fnv = mod.parse_value(T, PTR)
        T.expect('('); args = []
        while T.peek() != ')':
            t = mod.parse_type(T)
            s0 = T.i
            mod.skip_attrs(T)
            bv = None
            for j in range(s0, T.i):
                if T.t[j][1] == 'byval':
                    TT = Toks(T.t); TT.i = j + 2
                    bv = mod.parse_type(TT)
            if t == ('metadata',):
                # skip
                d = 0
                while not (d == 0 and T.peek() in (',', ')')):
                    v = T.next()
                    if v in '([{': d += 1
                    elif v in ')]}': d -= 1
                args.append((t, ('u',), None))
            else:
                args.append((t, mod.parse_value(T, t), bv))
            T.accept(',')
        T.next()
        if op == 'call': return ('call', dest, rt, fnv, args, None, None)
        while T.peek() != 'to': T.next()
        T.next(); T.expect('label'); a = T.next()[1:]; T.expect('unwind'); T.expect('label'); b = T.next()[1:]
        return ('call', dest, rt, fnv, args, a, b)
    if op == 'landingpad':
        t = mod.parse_type(T); cl = []
        cleanup = False
        while not T.eof():
            w = T.next()
            if w == 'cleanup': cleanup = True
            elif w in ('catch', 'filter'):
                tt = mod.parse_type(T); cl.append((w, mod.parse_value(T, tt)))
            else: break
        return ('landingpad', dest, cleanup, cl)
    if op == 'resume':
        t = mod.parse_type(T); return ('resume', None, mod.parse_value(T, t))
    if op == 'extractvalue':
        t = mod.parse_type(T); v = mod.parse_value(T, t); ix = []
        while T.accept(','):
            if T.kind() == 'meta': break
            ix.append(int(T.next()))
        return ('extractvalue', dest, v, ix)
    if op == 'insertvalue':
        t = mod.parse_type(T); v = mod.parse_value(T, t); T.expect(',')
        t2 = mod.parse_type(T); e = mod.parse_value(T, t2); ix = []
        while T.accept(','):
            if T.kind() == 'meta': break
            ix.append(int(T.next()))
        return ('insertvalue', dest, t, v, e, ix)
    if op == 'atomicrmw':
        T.accept('volatile')
        o = T.next(); pt = mod.parse_type(T); p = mod.parse_value(T, pt); T.expect(',')
        t = mod.parse_type(T); v = mod.parse_value(T, t)
        return ('atomicrmw', dest, o, t, p, v)
    if op == 'freeze':
        t = mod.parse_type(T); return ('freeze', dest, mod.parse_value(T, t))
    if op == 'fence': return ('nop', None)
    if op == 'extractelement':
        t = mod.parse_type(T); v = mod.parse_value(T, t); T.expect(','); t2 = mod.parse_type(T); i = mod.parse_value(T, t2)
        return ('extractelement', dest, v, i)
    if op == 'insertelement':
        t = mod.parse_type(T); v = mod.parse_value(T, t); T.expect(','); t1 = mod.parse_type(T); e = mod.parse_value(T, t1)
        T.expect(','); t2 = mod.parse_type(T); i = mod.parse_value(T, t2)
        return ('insertelement', dest, t, v, e, i)
    raise ParseError('instr ' + op + ' :: ' + line)
