"""Rigorous interval evaluation of closed terms (no variables): decides strict
and non-strict comparisons of constants built with sqrt, cos, ... exactly."""
import mpmath
from mpmath import iv
from . import terms as TM
from .terms import Term
_val = {}
def interval(root, prec):
    iv.prec = prec
    val = _val.setdefault(prec, {})
    st = [root]
    while st:
        t = st[-1]
        if t.id in val: st.pop(); continue
        ch = [a for a in t.args if isinstance(a, Term) and a.id not in val]
        if ch: st.extend(ch); continue
        a = [val[x.id] if isinstance(x, Term) else x for x in t.args]
        o = t.op
        if o == 'c':
            q = t.args[0]; v = iv.mpf(q.numerator) / iv.mpf(q.denominator)
        elif o == 'v': v = +iv.pi if t.args[0] == '#pi' else +iv.e
        elif o == '+': v = a[0] + a[1]
        elif o == '*': v = a[0] * a[1]
        elif o == 'neg': v = -a[0]
        elif o == '/':
            if 0 in a[1]: return None
            v = a[0] / a[1]
        elif o == 'ipow':
            if a[1] < 0 and 0 in a[0]: return None
            v = a[0] ** a[1]
        elif o == 'max': v = iv.mpf([max(a[0].a, a[1].a), max(a[0].b, a[1].b)])
        elif o == 'min': v = iv.mpf([min(a[0].a, a[1].a), min(a[0].b, a[1].b)])
        elif o == 'fn':
            n, x = a[0], a[1]
            if n == 'abs': v = abs(x)
            elif n == 'sqrt':
                if x.a < 0: return None
                v = iv.sqrt(x)
            elif n == 'log':
                if x.a <= 0: return None
                v = iv.log(x)
            elif n in ('exp', 'sin', 'cos', 'tan', 'atan'): v = getattr(iv, n)(x)
            else: return None
        else: return None
        val[t.id] = v
        st.pop()
    return val[root.id]
def decide(op, a, b):
    """truth value of a `op` b for closed a, b, or None"""
    d = TM.sub(b, a)
    for prec in (120, 400):
        try: v = interval(d, prec)
        except (ZeroDivisionError, ValueError, AttributeError, NotImplementedError): return None
        if v is None: return None
        if v.a > 0: return {'lt': True, 'le': True, 'eq': False, 'ne': True}[op]
        if v.b < 0: return {'lt': False, 'le': False, 'eq': False, 'ne': True}[op]
        if op == 'le' and v.a >= 0: return True
    return None
