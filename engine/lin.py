"""linear forms of integer terms"""
from fractions import Fraction
from . import terms as TM
from .terms import const

def linform(t):
    """dict {term|None: coeff}"""
    if TM.isc(t): return {None: t.args[0]}
    if t.op == '+':
        r = dict(linform(t.args[0]))
        for k, c in linform(t.args[1]).items():
            r[k] = r.get(k, 0) + c
        return r
    if t.op == 'neg': return {k: -c for k, c in linform(t.args[0]).items()}
    if t.op == '*':
        a, b = t.args
        if TM.isc(b): a, b = b, a
        if TM.isc(a): return {k: c * a.args[0] for k, c in linform(b).items()}
        # distribute over sums
        la, lb = linform(a), linform(b)
        if len(la) > 1 or len(lb) > 1:
            r = {}
            for k1, c1 in la.items():
                for k2, c2 in lb.items():
                    if k1 is None: k = k2
                    elif k2 is None: k = k1
                    else: k = TM.mul(k1, k2)
                    r[k] = r.get(k, 0) + c1 * c2
            return r
    return {t: Fraction(1)}
def fromlin(l):
    r = TM.ZERO
    for k, c in l.items():
        if c == 0: continue
        r = TM.add(r, const(c) if k is None else TM.mul(const(c), k))
    return r
def lindiv(t, n):
    l = linform(t)
    if any((c / n).denominator != 1 for c in l.values()): return None
    return fromlin({k: c / n for k, c in l.items()})
