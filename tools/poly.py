"""Sparse polynomials over the rationals: dict {packed monomial: coefficient}.
A monomial is an int with SH bits of exponent per variable index."""
from fractions import Fraction
SH = 12
MASK = (1 << SH) - 1

def const(c):
    c = norm(c)
    return {0: c} if c != 0 else {}
def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1: return c.numerator
    return c
def var(i, e=1): return {e << (SH * i): 1}
def add(a, b):
    if len(a) < len(b): a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v == 0: r.pop(m, None)
        else: r[m] = norm(v)
    return r
def scale(a, k):
    if k == 0: return {}
    if k == 1: return a
    return {m: norm(c * k) for m, c in a.items()}
def neg(a): return {m: -c for m, c in a.items()}
def sub(a, b): return add(a, neg(b))
def mulmono(a, m, k=1): return {n + m: norm(c * k) for n, c in a.items()}
def mul(a, b):
    if not a or not b: return {}
    if len(a) < len(b): a, b = b, a
    if len(b) == 1:
        (m, k), = b.items()
        return mulmono(a, m, k)
    r = {}
    for m, c in b.items():
        for n, d in a.items():
            k = m + n
            v = r.get(k)
            r[k] = c * d if v is None else v + c * d
    return {m: norm(c) for m, c in r.items() if c != 0}
def power(a, n):
    r = const(1)
    while n:
        if n & 1: r = mul(r, a)
        n >>= 1
        if n: a = mul(a, a)
    return r
def isconst(a): return not a or (len(a) == 1 and 0 in a)
def cval(a): return a.get(0, 0)
def mexp(m, i): return (m >> (SH * i)) & MASK
def mvars(m):
    i = 0
    while m:
        e = m & MASK
        if e: yield i, e
        m >>= SH; i += 1
def vars_of(a):
    u = 0
    for m in a: u |= m
    return [i for i, _ in mvars(u)]
def degree(a): return max((sum(e for _, e in mvars(m)) for m in a), default=0)
def mgcd(a):
    """monomial content"""
    g = None
    for m in a:
        if g is None: g = dict(mvars(m))
        else:
            for i in list(g):
                e = mexp(m, i)
                if e < g[i]:
                    if e: g[i] = e
                    else: del g[i]
        if not g: return 0
    r = 0
    for i, e in (g or {}).items(): r |= e << (SH * i)
    return r
def mdiv(m, n):
    """m / n or None"""
    for i, e in mvars(n):
        if mexp(m, i) < e: return None
    return m - n
def lead(a): return max(a)
def exact_div(a, b):
    """a / b if exact else None"""
    if not a: return {}
    if isconst(b): return scale(a, Fraction(1) / cval(b))
    lb = lead(b); cb = b[lb]; q = {}; r = dict(a); n = 0
    while r:
        lr = max(r); m = mdiv(lr, lb)
        if m is None: return None
        c = norm(Fraction(r[lr]) / cb); q[m] = c
        for k, d in b.items():
            kk = k + m; v = r.get(kk, 0) - c * d
            if v == 0: r.pop(kk, None)
            else: r[kk] = norm(v)
        n += 1
        if n > 3000: return None
    return q
def isqrt_rat(c):
    from math import isqrt
    c = Fraction(c)
    if c < 0: return None
    p, q = isqrt(c.numerator), isqrt(c.denominator)
    return Fraction(p, q) if p * p == c.numerator and q * q == c.denominator else None
def sqrt_poly(a):
    """(k, q) with a = k * q^2, q of leading coefficient 1, or None"""
    if not a: return (0, {})
    la = lead(a); k = a[la]
    if any(e & 1 for _, e in mvars(la)): return None
    h = 0
    for i, e in mvars(la): h |= (e // 2) << (SH * i)
    a = scale(a, Fraction(1) / k)
    q = {h: 1}; r = sub(a, {la: 1}); n = 0
    while r:
        lr = max(r); m = mdiv(lr, h)
        if m is None or m >= h: return None
        c = norm(Fraction(r[lr]) / 2)
        # r -= 2 q t + t^2
        for kq, cq in q.items():
            kk = kq + m; v = r.get(kk, 0) - 2 * c * cq
            if v == 0: r.pop(kk, None)
            else: r[kk] = norm(v)
        kk = 2 * m; v = r.get(kk, 0) - c * c
        if v == 0: r.pop(kk, None)
        else: r[kk] = norm(v)
        q[m] = c; n += 1
        if n > 200: return None
    return (k, q)
