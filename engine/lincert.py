"""Linear certificates: goal = sum m_i * fact_i with monomial multipliers and
rational coefficients, found modulo a prime and verified exactly."""
import time
from fractions import Fraction
from . import nf as N
from .nf import SH, MASK, mono_items, padd, pscale
P = (1 << 61) - 1

def divides(a, b):
    for i, e in mono_items(a):
        if ((b >> (SH * i)) & MASK) < e: return False
    return True

def ratrec(x):
    """x mod P -> small fraction"""
    a0, a1, s0, s1 = P, x % P, 0, 1
    B = 1 << 30
    while a1 > B:
        q = a0 // a1
        a0, a1 = a1, a0 - q * a1; s0, s1 = s1, s0 - q * s1
    return Fraction(a1, s1) if s1 else None

def prove(goal, facts, maxprod=6000, rounds=2, seconds=40):
    """goal, facts: integer polynomials (dict mono -> int).  True when certified."""
    t0 = time.time()
    facts = [f for f in facts if f]
    if not goal: return True
    prods = {}
    seen = set()
    work = list(goal)
    # variables owned by few monomials decide which products are useful
    fmonos = [sorted(f, reverse=True) for f in facts]
    for rnd in range(rounds):
        new = []
        for m in work:
            if m in seen: continue
            seen.add(m)
            for k, f in enumerate(facts):
                for mf in fmonos[k]:
                    if mf and divides(mf, m):
                        q = m - mf
                        if (q, k) not in prods:
                            pr = {mm + q: c for mm, c in f.items()}
                            prods[(q, k)] = pr
                            new.extend(pr)
            if len(prods) > maxprod or time.time() - t0 > seconds: break
        if solve(goal, prods, t0 + seconds): return True
        if len(prods) > maxprod or time.time() - t0 > seconds: return False
        work = new
    return False

def solve(goal, prods, tend):
    # columns: products; eliminate incrementally (rows = polynomials mod P with pivots)
    keys = list(prods)
    piv = {}          # pivot mono -> (row dict, comb dict)
    def red(row, comb):
        while True:
            m = max(row, default=None)
            hit = None
            for mm in sorted(row, reverse=True):
                if mm in piv: hit = mm; break
            if hit is None: return row, comb
            r, c = piv[hit]
            k = row[hit]
            for mm, v in r.items():
                w = (row.get(mm, 0) - k * v) % P
                if w: row[mm] = w
                else: row.pop(mm, None)
            for mm, v in c.items():
                w = (comb.get(mm, 0) - k * v) % P
                if w: comb[mm] = w
                else: comb.pop(mm, None)
    for n, k in enumerate(keys):
        if n % 50 == 0 and time.time() > tend: return False
        row, comb = red({m: c % P for m, c in prods[k].items() if c % P}, {n: 1})
        if not row: continue
        m = max(row); inv = pow(row[m], P - 2, P)
        piv[m] = ({mm: v * inv % P for mm, v in row.items()}, {mm: v * inv % P for mm, v in comb.items()})
    row, comb = red({m: c % P for m, c in goal.items() if c % P}, {})
    if row: return False
    tot = {m: Fraction(c) for m, c in goal.items()}
    for n, v in comb.items():
        q = ratrec(v)
        if q is None: return False
        for m, c in prods[keys[n]].items():
            w = tot.get(m, 0) + q * c
            if w: tot[m] = w
            else: tot.pop(m, None)
    return not tot
