"""Decides the real-arithmetic queries dumped by the symbolic executor.

Each query is  pc => goal  over exact reals with sqrt/sin/cos/... terms.  Terms are
turned into rational functions over polynomial atoms, every atom contributing its defining facts
(s^2 = u, s >= 0; c^2 + s^2 = 1; ranges of inverse functions ...).  Equality goals are linearised with
lemma instances (multiples of those facts) found by rewriting and the resulting system is decided by
Z3; everything else is decided by Z3's nonlinear solver over the same atoms and facts."""
import signal, os, sys, json, time, math, random
from fractions import Fraction as Fr
from math import gcd
import z3
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import poly as P

class Unsupported(Exception): pass
class Rescan(Exception): pass

STATS = dict(z3_queries=0, z3_s=0.0, lin_queries=0, nl_queries=0, reductions=0)
_z3ids = {}

def fgcd(a, b):
    a, b = Fr(a), Fr(b)
    return Fr(gcd(a.numerator * b.denominator, b.numerator * a.denominator), a.denominator * b.denominator)

class RF:
    """rational function: num polynomial over a product of factor^exp"""
    __slots__ = ("n", "d")
    def __init__(s, n, d=()): s.n = n; s.d = d

class Ctx:
    def __init__(s, nodes, deadline, units=None):
        s.nodes = nodes; s.deadline = deadline
        s.vname = []; s.vkind = []; s.vidx = {}
        s.rels = []            # (var, k, rest) in creation order
        s.relvars = {}
        s.factors = []; s.fkey = {}
        s.cache = {}; s.units = units if units is not None else {}
        s.facts = []           # z3 facts about atoms
        s.base = {}; s.basepl = {}            # base key -> dict(c=RF, s=RF)
        s.basev = {}           # base key -> (c var index, s var index or None)
        s.zv = {}
        s.defs = []            # definedness obligations (z3 bool, descr)
        s.nodedefs = {}        # node id -> list of defs created when translating it
        s.pcz = []             # path condition as z3
        s.signcache = {}; s.sqrtcache = {}
        s.angle_range = {}     # var idx -> (lo, hi) in multiples of pi, closed
        s.invinfo = {}         # var idx -> (cos RF, sin RF)
        s.contradiction = False
        s.pi = None
        s.bases_done = {}
        s.taylor = []
    # --- variables
    def newvar(s, name, kind):
        i = len(s.vname); s.vname.append(name); s.vkind.append(kind); return i
    def z(s, i):
        v = s.zv.get(i)
        if v is None: v = s.zv[i] = z3.Real("v%d_%s" % (i, s.vname[i][:40]))
        return v
    def zpoly(s, p):
        t = []
        for m, c in p.items():
            f = []
            if c != 1 or m == 0: f.append(z3.RealVal(str(c)))
            for i, e in P.mvars(m): f += [s.z(i)] * e
            t.append(z3.Product(*f) if len(f) > 1 else f[0])
        return z3.Sum(*t) if len(t) > 1 else (t[0] if t else z3.RealVal(0))
    def getpi(s):
        if s.pi is None:
            s.pi = s.newvar("pi", "pi")
            s.facts.append(z3.And(s.z(s.pi) > z3.RealVal("3.1415926535"), s.z(s.pi) < z3.RealVal("3.1415926536")))
        return s.pi
    # --- reduction
    def reduce(s, p, trace=None):
        STATS["reductions"] += 1
        for v, k, rest in reversed(s.rels):
            sh = P.SH * v
            if not any(((m >> sh) & P.MASK) >= k for m in p): continue
            if time.time() > s.deadline: raise Unsupported("time")
            before = p; out = {}; groups = {}
            for m, c in p.items():
                e = (m >> sh) & P.MASK
                if e < k:
                    w = out.get(m, 0) + c
                    if w == 0: out.pop(m, None)
                    else: out[m] = w
                else:
                    q, r = divmod(e, k)
                    groups.setdefault(q, {})[m - ((e - r) << sh)] = c
            pw = P.const(1); last = 0
            for q in sorted(groups):
                while last < q: pw = P.mul(pw, rest); last += 1
                out = P.add(out, P.mul(groups[q], pw))
            p = out
            if trace is not None: trace.append(P.sub(before, p))
        return p
    def addrel(s, v, k, rest):
        s.rels.append((v, k, rest)); s.relvars[v] = k
    # --- factors of denominators
    def factor(s, p):
        """RF of 1/p with p reduced polynomial, nonzero"""
        if not p: raise Unsupported("division by identically zero")
        if P.isconst(p): return RF(P.const(Fr(1) / P.cval(p)))
        d = {}; n = P.const(1)
        g = P.mgcd(p)
        if g:
            for i, e in P.mvars(g): d[s.fid(P.var(i))] = e
            p = {m - g: c for m, c in p.items()}
        if not P.isconst(p):
            for f in list(range(len(s.factors))):
                while True:
                    fp = s.factors[f]
                    if len(fp) == 1 or P.isconst(p): break
                    q = P.exact_div(p, fp) if P.lead(fp) <= P.lead(p) else None
                    if q is None: break
                    d[f] = d.get(f, 0) + 1; p = q
        if P.isconst(p): n = P.const(Fr(1) / P.cval(p))
        else:
            lc = p[P.lead(p)]
            sq = P.sqrt_poly(p)
            if sq and len(sq[1]) > 1: f = s.fid(sq[1]); d[f] = d.get(f, 0) + 2
            else:
                f = s.fid(P.scale(p, Fr(1) / lc)); d[f] = d.get(f, 0) + 1
            n = P.const(Fr(1) / lc)
        return RF(n, tuple(sorted(d.items())))
    def fid(s, p):
        key = tuple(sorted(p.items()))
        f = s.fkey.get(key)
        if f is None:
            f = s.fkey[key] = len(s.factors); s.factors.append(p)
        return f
    def fpow(s, f, e): return P.power(s.factors[f], e)
    def cancel(s, a):
        """remove denominators that divide the numerator"""
        n, d = a.n, dict(a.d)
        if not n: return RF({})
        if not d: return a
        n = s.reduce(n)
        if not n: return RF({})
        ch = True
        while ch:
            ch = False
            for f in list(d):
                fp = s.factors[f]
                while d.get(f, 0) > 0:
                    q = None
                    if len(fp) == 1:
                        m = P.lead(fp)
                        if all(P.mdiv(t, m) is not None for t in n): q = {t - m: c for t, c in n.items()}
                    else: q = P.exact_div(n, fp)
                    if q is None:
                        # a denominator variable with v^k = rest: n may be a multiple of rest
                        if len(fp) == 1:
                            (i, e), = P.mvars(P.lead(fp)) if len(list(P.mvars(P.lead(fp)))) == 1 else ((None, 0),)
                            k = s.relvars.get(i) if e == 1 else None
                            if k and d[f] >= k:
                                rest = next(r[2] for r in s.rels if r[0] == i)
                                if rest and not P.isconst(rest):
                                    q = P.exact_div(n, rest)
                                    if q is not None: d[f] -= k; n = q; ch = True; continue
                                elif rest:
                                    d[f] -= k; n = P.scale(n, Fr(1) / P.cval(rest)); ch = True; continue
                        break
                    n = q; d[f] -= 1; ch = True
                if d.get(f) == 0: del d[f]
        return RF(n, tuple(sorted(d.items())))
    def rmul(s, a, b):
        if not a.n or not b.n: return RF({})
        d = dict(a.d)
        for f, e in b.d: d[f] = d.get(f, 0) + e
        r = RF(s.reduce(P.mul(a.n, b.n)), tuple(sorted(d.items())))
        return s.quickcancel(r)
    def quickcancel(s, r):
        if not r.n: return RF({})
        if not r.d: return r
        d = dict(r.d); n = r.n; ch = False
        for f in list(d):
            fp = s.factors[f]
            if len(fp) == 1:
                m = P.lead(fp)
                while d[f] and all(P.mdiv(t, m) is not None for t in n):
                    n = {t - m: c for t, c in n.items()}; d[f] -= 1; ch = True
            elif len(n) <= 400:
                while d[f]:
                    q = P.exact_div(n, fp)
                    if q is None: break
                    n = q; d[f] -= 1; ch = True
            if not d[f]: del d[f]
        return RF(n, tuple(sorted(d.items()))) if ch else r
    def radd(s, a, b):
        if not a.n: return b
        if not b.n: return a
        if a.d == b.d: return s.quickcancel(RF(P.add(a.n, b.n), a.d))
        da, db = dict(a.d), dict(b.d); l = dict(da)
        for f, e in db.items(): l[f] = max(l.get(f, 0), e)
        na, nb = a.n, b.n
        for f, e in l.items():
            if e > da.get(f, 0): na = P.mul(na, s.fpow(f, e - da.get(f, 0)))
            if e > db.get(f, 0): nb = P.mul(nb, s.fpow(f, e - db.get(f, 0)))
        return s.quickcancel(RF(s.reduce(P.add(na, nb)), tuple(sorted(l.items()))))
    def rneg(s, a): return RF(P.neg(a.n), a.d)
    def rinv(s, a, what, node=None):
        a = s.cancel(a)
        if not a.n: raise Unsupported("division by identically zero")
        n = s.reduce(a.n)
        if not n: raise Unsupported("division by identically zero")
        r = s.factor(n)
        if not P.isconst(n): s.oblige(s.zpoly(n) != 0, "divisor nonzero: " + what)
        num = r.n
        for f, e in a.d: num = P.mul(num, s.fpow(f, e))
        return s.quickcancel(RF(num, r.d))
    def oblige(s, f, descr):
        s.curdefs.append((f, descr))
    def rdiv(s, a, b, what=""):
        return s.rmul(a, s.rinv(b, what))
    # --- sign decisions
    def zsolve(s, extra, ms=4000, facts=None):
        STATS["z3_queries"] += 1; STATS["nl_queries"] += 1
        t = time.time()
        ms = int(min(ms, max(200, (s.deadline - t) * 1000)))
        fs = (s.facts if facts is None else facts) + s.pcz + extra
        r = z3.unknown; mdl = None
        for mk in (lambda: z3.SolverFor("QF_NRA"), lambda: z3.Solver()):
            r, mdl = forked_check(mk, fs, max(100, ms // 2), s.zv)
            if r != z3.unknown: break
        STATS["z3_s"] += time.time() - t
        return r, mdl
    def sumsq(s, p):
        """1: nonneg, 2: positive by form"""
        pos = False
        for m, c in p.items():
            if c < 0: return 0
            for i, e in P.mvars(m):
                if e & 1 and s.vkind[i] not in ("sqrt", "pi", "pos"): return 0
            if m == 0: pos = True
        return 2 if pos else 1
    def sign(s, p, ms=3000):
        """'+' p>=0, '-' p<=0, '?' """
        if P.isconst(p): return '+' if P.cval(p) >= 0 else '-'
        k = tuple(sorted(p.items()))
        if k in s.signcache: return s.signcache[k]
        if s.sumsq(p): r = '+'
        elif s.sumsq(P.neg(p)): r = '-'
        else:
            zp = s.zpoly(p)
            r = '?'
            rr, m1 = s.zsolve([zp < 0], ms)
            if rr == z3.unsat: r = '+'
            else:
                rr2, _ = s.zsolve([zp > 0], ms)
                if rr2 == z3.unsat: r = '-'
        s.signcache[k] = r
        return r
    # --- sqrt
    def trigpairs(s):
        return [(c, v) for c, v in s.basev.values() if c is not None]
    def msqrt(s, u, what="sqrt"):
        u = s.cancel(u)
        if not u.n: return RF({})
        # arrange denominators: split even / odd powers
        num = u.n; dsq = {}
        for f, e in u.d:
            if e & 1: num = P.mul(num, s.factors[f]); e += 1
            dsq[f] = e // 2
        num = s.reduce(num)
        key = (tuple(sorted(num.items())), tuple(sorted(dsq.items())))
        if key in s.sqrtcache:
            return s.sqrtcache[key]
        if not P.isconst(num) and not s.sumsq(num): s.oblige(s.zpoly(num) >= 0, what + " argument nonnegative")
        root = s.polysqrt(num, what)
        # divide by |den|
        den = P.const(1)
        for f, e in dsq.items(): den = P.mul(den, s.fpow(f, e))
        den = s.reduce(den)
        r = root
        if not P.isconst(den) or P.cval(den) != 1:
            sg = s.sign(den)
            if sg == '?':
                den, r = den, root
                v = s.newvar("abs", "sqrt"); s.facts.append(z3.And(s.z(v) >= 0, z3.Or(s.z(v) == s.zpoly(den), s.z(v) == -s.zpoly(den))))
                s.addrel(v, 2, s.reduce(P.mul(den, den)))
                r = s.rmul(root, RF(P.const(1), ((s.fid(P.var(v)), 1),)))
            else:
                r = s.rmul(root, RF(P.const(1 if sg == '+' else -1), tuple(sorted(dsq.items()))))
        r = s.cancel(r)
        s.sqrtcache[key] = r
        return r
    def polysqrt(s, num, what):
        if P.isconst(num):
            c = Fr(P.cval(num))
            if c < 0: raise Unsupported("sqrt of negative constant")
            r = P.isqrt_rat(c)
            if r is not None: return RF(P.const(r))
            # c = k^2 * squarefree (small)
            n = c.numerator * c.denominator; k = Fr(1, c.denominator); f = 2
            while f * f <= n and f < 2000:
                while n % (f * f) == 0: n //= f * f; k *= f
                f += 1
            key = ("csqrt", n)
            v = s.vidx.get(key)
            if v is None:
                v = s.vidx[key] = s.newvar("sqrt%d" % n, "sqrt"); s.addrel(v, 2, P.const(n))
                lo = P.Fraction(int(math.isqrt(n * 10**20)), 10**10)
                s.facts.append(z3.And(s.z(v) >= z3.RealVal(str(lo)), s.z(v) * s.z(v) == n))
            return RF(P.scale(P.var(v), k))
        cands = [num]
        for c, sv in s.trigpairs():
            # rewrite 1-c^2 back to s^2
            if c in P.vars_of(num) :
                one = P.sub(P.const(1), P.var(c, 2))
                q = num; e = 0
                while True:
                    q2 = P.exact_div(q, one)
                    if q2 is None or P.isconst(q): break
                    q = q2; e += 1
                if e: cands.append(P.mul(q, P.var(sv, 2 * e)))
        # atoms w with w^2 = rest: a factor rest of num is a square too
        for v, k, rest in s.rels:
            if k == 2 and not P.isconst(rest) and len(rest) <= 60:
                q2 = P.exact_div(num, rest)
                if q2 is not None: cands.append(P.mul(q2, P.var(v, 2)))
        for cnd in cands:
            sq = P.sqrt_poly(cnd)
            if sq is None: continue
            k, q = sq
            if k < 0: continue
            root = s.polysqrt(P.const(k), what)
            # |q|
            mons = P.mgcd(q); absq = RF(P.const(1))
            parts = []
            if mons:
                for i, e in P.mvars(mons): parts.append((P.var(i), e))
                q = {m - mons: c for m, c in q.items()}
            if not P.isconst(q): parts.append((q, 1))
            ok = True
            for p, e in parts:
                if e % 2 == 0: absq = s.rmul(absq, RF(P.power(p, e))); continue
                sg = s.sign(p)
                if sg == '?':
                    key = ("abs", tuple(sorted(p.items())))
                    v = s.vidx.get(key)
                    if v is None:
                        v = s.vidx[key] = s.newvar("abs", "sqrt")
                        s.facts.append(z3.And(s.z(v) >= 0, z3.Or(s.z(v) == s.zpoly(p), s.z(v) == -s.zpoly(p))))
                        s.addrel(v, 2, s.reduce(P.mul(p, p)))
                    absq = s.rmul(absq, RF(P.power(P.var(v), e)))
                else:
                    absq = s.rmul(absq, RF(P.scale(P.power(p, e), 1 if sg == '+' else -1)))
            if ok: return s.rmul(root, absq)
        # pull out square rational content so that 4x and x share an atom
        lc = Fr(num[P.lead(num)]); k = Fr(1)
        r = P.isqrt_rat(abs(lc))
        if r is not None and r != 1:
            num = P.scale(num, Fr(1) / abs(lc)); k = r
        key = ("sqrt", tuple(sorted(num.items())))
        v = s.vidx.get(key)
        if v is None:
            v = s.vidx[key] = s.newvar("r", "sqrt")
            s.addrel(v, 2, num)
            s.facts.append(z3.And(s.z(v) >= 0, s.z(v) * s.z(v) == s.zpoly(num)))
        return RF(P.scale(P.var(v), k))
    # --- angles
    def linear_form(s, a):
        """list of (coef, base key, poly of base)"""
        a = s.cancel(a)
        if not a.n: return []
        if not a.d:
            r = []
            for m, c in a.n.items(): r.append((Fr(c), (m, ()), ({m: 1}, ())))
            return r
        r = []
        lc = Fr(a.n[P.lead(a.n)])
        n = P.scale(a.n, Fr(1) / lc)
        return [(lc, (tuple(sorted(n.items())), a.d), (n, a.d))]
    def trig(s, a):
        """(cos RF, sin RF) of angle a"""
        C, S = RF(P.const(1)), RF({})
        for coef, key, pl in s.linear_form(a):
            m = key[0]
            if s.pi is not None and m == P.lead(P.var(s.pi)) and key[1] == ():
                c, sn = s.pitrig(coef)
            elif m == 0:
                c, sn = s.basetrig(coef, ("one",), (P.const(1), ()))
            else:
                c, sn = s.basetrig(coef, key, pl)
            C, S = (s.radd(s.rmul(C, c), s.rneg(s.rmul(S, sn))), s.radd(s.rmul(S, c), s.rmul(C, sn)))
        return C, S
    def pitrig(s, k):
        k = k % 2
        tab = {Fr(0): (1, 0), Fr(1, 2): (0, 1), Fr(1): (-1, 0), Fr(3, 2): (0, -1)}
        if k in tab: return tuple(RF(P.const(x)) for x in tab[k])
        if (k * 4).denominator == 1:
            h = s.rmul(s.polysqrt(P.const(2), ""), RF(P.const(Fr(1, 2)))); i = int(k * 4)
            sc = {1: (1, 1), 3: (-1, 1), 5: (-1, -1), 7: (1, -1)}[i]
            return s.rmul(h, RF(P.const(sc[0]))), s.rmul(h, RF(P.const(sc[1])))
        return s.basetrig(k, ("pi",), (P.var(s.getpi()), ()))
    def basetrig(s, coef, key, pl):
        unit = s.units.get(key)
        if unit is None: unit = s.units[key] = abs(coef)
        if (coef / unit).denominator != 1:
            s.units[key] = fgcd(unit, coef); raise Rescan()
        n = int(coef / unit); sg = 1
        if n < 0: n = -n; sg = -1
        pr = s.base.get(key)
        if pr is None: s.basepl[key] = (pl, unit); pr = s.base[key] = s.mkbase(key, pl, unit)
        c1, s1 = pr; c, sn = RF(P.const(1)), RF({})
        for _ in range(n):
            c, sn = s.radd(s.rmul(c, c1), s.rneg(s.rmul(sn, s1))), s.radd(s.rmul(sn, c1), s.rmul(c, s1))
        return c, (sn if sg > 0 else s.rneg(sn))
    def mkbase(s, key, pl, unit):
        n, d = pl
        vs = list(P.mvars(P.lead(n))) if len(n) == 1 else []
        if len(vs) == 1 and vs[0][1] == 1 and d == () and vs[0][0] in s.invinfo:
            i = vs[0][0]; c, sn = s.invinfo[i]; lo, hi = s.angle_range[i]
            u = unit
            if u == 1: return c, sn
            if u.numerator != 1 and (u.denominator & (u.denominator - 1)) == 0:
                s.units[key] = Fr(1, u.denominator); raise Rescan()
            if u.numerator == 1 and (u.denominator & (u.denominator - 1)) == 0:
                k = u.denominator
                while k > 1:
                    # half angle: |angle| <= pi here, so cos(half) >= 0
                    ch = s.msqrt(s.rmul(s.radd(RF(P.const(1)), c), RF(P.const(Fr(1, 2)))), "half angle")
                    if lo >= 0: sh = s.msqrt(s.rmul(s.radd(RF(P.const(1)), s.rneg(c)), RF(P.const(Fr(1, 2)))), "half angle")
                    else: sh = s.rdiv(sn, s.rmul(RF(P.const(2)), ch), "half angle cosine")
                    c, sn = ch, sh; k //= 2
                return c, sn
            if u.denominator == 1:
                # unit > 1: multiples only
                C, S = RF(P.const(1)), RF({})
                for _ in range(int(u)): C, S = s.radd(s.rmul(C, c), s.rneg(s.rmul(S, sn))), s.radd(s.rmul(S, c), s.rmul(C, sn))
                return C, S
            s.units[key] = Fr(1, u.denominator); raise Rescan()
        nm = "(" + str(len(s.base)) + ")"
        c = s.newvar("cos" + nm, "trig"); sv = s.newvar("sin" + nm, "trig")
        s.addrel(sv, 2, P.sub(P.const(1), P.var(c, 2)))
        s.basev[key] = (c, sv)
        zc, zs = s.z(c), s.z(sv)
        s.facts.append(z3.And(zc * zc + zs * zs == 1, zc <= 1, zc >= -1, zs <= 1, zs >= -1))
        # value facts: relate to the angle itself
        den = P.const(1)
        for f, e in d: den = P.mul(den, s.fpow(f, e))
        if P.isconst(den):
            th = s.zpoly(n) * z3.RealVal(str(unit / P.cval(den)))
            s.taylor.append((th, zc, zs))
            pi = s.z(s.getpi())
            s.facts.append(z3.And(z3.Implies(th == 0, z3.And(zc == 1, zs == 0)),
                z3.Implies(z3.And(th > 0, th < pi), zs > 0), z3.Implies(z3.And(th < 0, th > -pi), zs < 0),
                z3.Implies(z3.And(th > -pi / 2, th < pi / 2), zc > 0), z3.Implies(z3.And(th > pi / 2, th < pi * 3 / 2), zc < 0),
                z3.Implies(z3.And(th < -pi / 2, th > -pi * 3 / 2), zc < 0),
                z3.Implies(z3.And(th > pi, th < 2 * pi), zs < 0), z3.Implies(z3.And(th < -pi, th > -2 * pi), zs > 0)))
        return RF(P.var(c)), RF(P.var(sv))
    def inv(s, fn, args, what):
        """asin / acos / atan / atan2"""
        a = [s.cancel(x) for x in args]
        key = (fn,) + tuple((tuple(sorted(x.n.items())), x.d) for x in a)
        v = s.vidx.get(key)
        if v is not None: return RF(P.var(v))
        one = RF(P.const(1))
        if fn == "atan2" :
            y, x = a
            r = s.msqrt(s.radd(s.rmul(x, x), s.rmul(y, y)), "atan2")
            if not r.n: return RF({})
            c, sn = s.rdiv(x, r, "atan2 of (0,0)"), s.rdiv(y, r, "atan2 of (0,0)"); rng = (-1, 1)
        elif fn == "atan":
            r = s.msqrt(s.radd(one, s.rmul(a[0], a[0])), "atan")
            c, sn = s.rdiv(one, r, "atan"), s.rdiv(a[0], r, "atan"); rng = (Fr(-1, 2), Fr(1, 2))
        else:
            x = a[0]
            if P.isconst(x.n) and not x.d:
                cv = P.cval(x.n)
                if cv in (0, 1, -1):
                    k = {("asin", 0): 0, ("asin", 1): Fr(1, 2), ("asin", -1): Fr(-1, 2), ("acos", 0): Fr(1, 2), ("acos", 1): 0, ("acos", -1): 1}[(fn, cv)]
                    return RF(P.scale(P.var(s.getpi()), k))
            o = s.msqrt(s.radd(one, s.rneg(s.rmul(x, x))), fn)
            c, sn = (o, x) if fn == "asin" else (x, o); rng = (Fr(-1, 2), Fr(1, 2)) if fn == "asin" else (0, 1)
        # composition with a known angle: (c, sn) == (cos kA, sin kA) and kA lies in the range of fn
        for bk, (bc, bs) in list(s.base.items()):
            (n, d), u = s.basepl[bk]
            if d != () or P.isconst(n): continue
            C, S = RF(P.const(1)), RF({})
            for mult in (1, 2, 3, 4):
                C, S = s.radd(s.rmul(C, bc), s.rneg(s.rmul(S, bs))), s.radd(s.rmul(S, bc), s.rmul(C, bs))
                if s.cancel(s.radd(c, s.rneg(C))).n: continue
                ds = s.cancel(s.radd(sn, s.rneg(S))).n; sg = 1
                if ds:
                    if s.cancel(s.radd(sn, S)).n: continue
                    sg = -1
                ang = P.scale(n, Fr(u) * mult * sg); za, zp = s.zpoly(ang), s.z(s.getpi())
                lo = za >= zp * z3.RealVal(str(rng[0])) if fn != "atan2" else za > -zp
                r0, _ = s.zsolve([z3.Not(z3.And(lo, za <= zp * z3.RealVal(str(rng[1]))))], 3000)
                if r0 == z3.unsat: return RF(ang)
        # the same (or doubled / halved) angle under another inverse function: angles in (-pi, pi] with equal sine and cosine are equal
        for v0, (c0, s0) in list(s.invinfo.items()):
            if not s.cancel(s.radd(c, s.rneg(c0))).n:
                if not s.cancel(s.radd(sn, s.rneg(s0))).n: s.vidx[key] = v0; return RF(P.var(v0))
                if not s.cancel(s.radd(sn, s0)).n:
                    zs = s.zrf(sn); r0, _ = s.zsolve([z3.Not(z3.Or(zs != 0, s.zrf(c) > 0))], 3000)
                    if r0 == z3.unsat: return RF(P.neg(P.var(v0)))
            two = RF(P.const(2))
            C2, S2 = s.radd(s.rmul(c0, c0), s.rneg(s.rmul(s0, s0))), s.rmul(two, s.rmul(s0, c0))   # doubled known angle
            if not s.cancel(s.radd(c, s.rneg(C2))).n and not s.cancel(s.radd(sn, s.rneg(S2))).n:
                r0, _ = s.zsolve([s.zrf(c0) <= 0], 3000)
                if r0 == z3.unsat: return RF(P.scale(P.var(v0), 2))
            C2, S2 = s.radd(s.rmul(c, c), s.rneg(s.rmul(sn, sn))), s.rmul(two, s.rmul(sn, c))       # half of a known angle
            if not s.cancel(s.radd(c0, s.rneg(C2))).n and not s.cancel(s.radd(s0, s.rneg(S2))).n:
                r0, _ = s.zsolve([s.zrf(c) <= 0], 3000)
                if r0 == z3.unsat: return RF(P.scale(P.var(v0), Fr(1, 2)))
        v = s.vidx[key] = s.newvar(fn, "pos" if fn == "acos" else "angle")
        s.invinfo[v] = (c, sn); s.angle_range[v] = rng
        zz, pi = s.z(v), s.z(s.getpi())
        s.facts.append(z3.And(zz >= pi * z3.RealVal(str(rng[0])), zz <= pi * z3.RealVal(str(rng[1]))))
        # sign and boundary facts
        zc, zs = s.zrf(c), s.zrf(sn)
        s.facts.append(z3.And((zs > 0) == z3.And(zz > 0, zz < pi), (zs < 0) == z3.And(zz < 0, zz > -pi), (zc > 0) == z3.And(zz > -pi / 2, zz < pi / 2),
                              z3.Implies(z3.And(zs == 0, zc > 0), zz == 0), z3.Implies(z3.And(zs == 0, zc < 0), zz == pi), z3.Implies(z3.And(zc == 0, zs > 0), zz == pi / 2), z3.Implies(z3.And(zc == 0, zs < 0), zz == -pi / 2)))
        s.taylor.append((zz, zc, zs))
        return RF(P.var(v))
    def zrf(s, a):
        n = s.zpoly(a.n)
        if not a.d: return n
        den = P.const(1)
        for f, e in a.d: den = P.mul(den, s.fpow(f, e))
        return n / s.zpoly(den)
    # --- translation of real nodes
    def tr(s, i):
        r = s.cache.get(i)
        if r is not None: return r
        stack = [i]
        while stack:
            j = stack[-1]
            if j in s.cache: stack.pop(); continue
            op, w, kids, aux = s.nodes[j]
            todo = [k for k in kids if k not in s.cache and s.nodes[k][1] == 0]
            if todo: stack.extend(todo); continue
            s.curdefs = []
            s.cache[j] = s.tr1(j, op, kids, aux)
            d = []
            for k in kids: d += s.nodedefs.get(k, [])
            seen = set(); out = []
            for x in d + s.curdefs:
                kx = x[0].get_id()
                if kx not in seen: seen.add(kx); out.append(x)
            s.nodedefs[j] = out
            stack.pop()
        return s.cache[i]
    def tr1(s, j, op, kids, aux):
        if time.time() > s.deadline: raise Unsupported("time")
        if op == "rconst": return RF(P.const(Fr(aux)))
        if op == "rpi": return RF(P.var(s.getpi()))
        if op == "rsym": return RF(P.var(s.symvar(aux)))
        k = [s.cache[x] for x in kids if s.nodes[x][1] == 0]
        if op == "radd": return s.radd(k[0], k[1])
        if op == "rmul": return s.rmul(k[0], k[1])
        if op == "rdiv": return s.rdiv(k[0], k[1], "")
        if op == "rfun":
            if aux == "sqrt": return s.msqrt(k[0])
            if aux == "sin": return s.trig(k[0])[1]
            if aux == "cos": return s.trig(k[0])[0]
            if aux == "tan":
                c, sn = s.trig(k[0]); return s.rdiv(sn, c, "cosine in tan")
            if aux in ("asin", "acos", "atan", "atan2"): return s.inv(aux, k, aux)
            if aux == "pow":
                e = s.cancel(k[1])
                if not P.isconst(e.n) or e.d: raise Unsupported("pow with symbolic exponent")
                e = P.cval(e.n)
                if (2 * e).denominator != 1 or abs(e) > 16: raise Unsupported("pow exponent %s" % e)
                b = k[0] if e.denominator == 1 else s.msqrt(k[0]); n = abs(int(e)) if e.denominator == 1 else abs(int(2 * e))
                r = RF(P.const(1))
                for _ in range(n): r = s.rmul(r, b)
                return s.rdiv(RF(P.const(1)), r, "base of pow") if e < 0 else r
            if aux == "floor":
                a = s.cancel(k[0]); key = ("floor", tuple(sorted(a.n.items())), a.d)
                v = s.vidx.get(key)
                if v is None:
                    v = s.vidx[key] = s.newvar("floor", "int")
                    iv = z3.Int("i%d" % v); s.zv[v] = z3.ToReal(iv)
                    s.facts.append(z3.And(s.z(v) <= s.zrf(a), s.zrf(a) < s.z(v) + 1))
                return RF(P.var(v))
            raise Unsupported("function " + aux)
        raise Unsupported("op " + op)
    def symvar(s, name):
        v = s.vidx.get(("sym", name))
        if v is None: v = s.vidx[("sym", name)] = s.newvar(name, "sym")
        return v
    # --- booleans
    def diff(s, a, b):
        return s.cancel(s.radd(s.tr(a), s.rneg(s.tr(b))))
    def dodd(s, r):
        """r.n times odd-power denominators: has the sign of r"""
        n = r.n
        for f, e in r.d:
            if e & 1: n = P.mul(n, s.factors[f])
        return n
    def zbool(s, i, defs):
        op, w, kids, aux = s.nodes[i]
        if op == "const": return z3.BoolVal(int(aux) != 0 if not isinstance(aux, bool) else aux)
        if op in ("rlt", "rle", "req"):
            d = s.diff(kids[1], kids[0]); defs += s.nodedefs.get(kids[0], []) + s.nodedefs.get(kids[1], [])
            n = s.reduce(s.dodd(d)) if op != "req" else s.reduce(d.n)
            if P.isconst(n):
                c = P.cval(n); return z3.BoolVal(c > 0 if op == "rlt" else c >= 0 if op == "rle" else c == 0)
            zn = s.zpoly(n)
            return zn > 0 if op == "rlt" else zn >= 0 if op == "rle" else zn == 0
        if op == "and" and w == 1: return z3.And(s.zbool(kids[0], defs), s.zbool(kids[1], defs))
        if op == "or" and w == 1: return z3.Or(s.zbool(kids[0], defs), s.zbool(kids[1], defs))
        if op == "xor" and w == 1: return z3.Xor(s.zbool(kids[0], defs), s.zbool(kids[1], defs))
        if op == "eq" and s.nodes[kids[0]][1] == 1: return s.zbool(kids[0], defs) == s.zbool(kids[1], defs)
        if op == "ite" and w == 1: return z3.If(s.zbool(kids[0], defs), s.zbool(kids[1], defs), s.zbool(kids[2], defs))
        if op == "sym" and w == 1: return z3.Bool(str(aux))
        if w != 1: raise Unsupported("non-boolean " + op)
        return s.zbv(i)
    def zbv1(s, i):
        op, w, kids, aux = s.nodes[i]
        if op == "const": return z3.BitVecVal(int(aux), w)
        if op == "sym": return z3.BitVec(str(aux), w)
        raise Unsupported("bit-vector operation " + op)
    def zbv(s, i):
        op, w, kids, aux = s.nodes[i]
        if op == "eq": return s.zbv1(kids[0]) == s.zbv1(kids[1])
        if op == "ult": return z3.ULT(s.zbv1(kids[0]), s.zbv1(kids[1]))
        if op == "extract": return z3.Extract(0, 0, s.zbv1(kids[0])) == 1
        raise Unsupported("bit-vector operation " + op)
    # --- path condition
    def isnot(s, i):
        op, w, kids, aux = s.nodes[i]
        if op == "xor" and w == 1:
            for a, b in ((0, 1), (1, 0)):
                o = s.nodes[kids[a]]
                if o[0] == "const" and int(o[3]) == 1: return kids[b]
        if op == "eq" and s.nodes[kids[0]][1] == 1:
            for a, b in ((0, 1), (1, 0)):
                o = s.nodes[kids[a]]
                if o[0] == "const" and int(o[3]) == 0: return kids[b]
        return None
    def addpc(s, pcs):
        # equalities first over plain symbols (assumed constraints such as unit norm)
        s.eqleft = []
        for i in pcs:
            op, w, kids, aux = s.nodes[i]
            if op == "and":
                pass
            if op == "req":
                d = s.diff(kids[1], kids[0]); n = s.reduce(d.n)
                s.addeq(n)
        s.pcdefs = []
        prev = []
        for i in pcs:
            defs = []
            try: z = s.zbool(i, defs)
            except Unsupported as e:
                if str(e) == "time": raise
                continue
            for d in defs: s.pcdefs.append((len(s.pcz), d))
            s.pcz.append(z)
            if z3.is_false(z3.simplify(z)): s.contradiction = True
    def addeq(s, n):
        if P.isconst(n):
            if P.cval(n) != 0: s.contradiction = True
            return
        # monomial = 0 with power of single var
        for q in (n, P.neg(n)):
            sg = s.sumsq(q)
            if sg == 2: s.contradiction = True; return
            if sg == 1 and all(all(e % 2 == 0 for _, e in P.mvars(m)) and len(list(P.mvars(m))) == 1 for m in q):
                for m in q:
                    (v, e), = P.mvars(m)
                    if v not in s.relvars or s.relvars[v] > 1:
                        old = [r for r in s.rels if r[0] == v]
                        s.rels = [r for r in s.rels if r[0] != v]
                        s.rels = s.rels + [(v, 1, {})]; s.relvars[v] = 1
                        s.facts.append(s.z(v) == 0)
                        s.fixrels()
                        for _, k, rest in old: s.addeq(s.reduce(rest))
                return
        # choose variable with pure power lead: prefer linear in non-lead variable with constant coefficient
        best = None
        for v in P.vars_of(n):
            es = sorted({P.mexp(m, v) for m in n}, reverse=True)
            k = es[0]
            tops = [m for m in n if P.mexp(m, v) == k]
            if len(tops) != 1 or tops[0] != (k << (P.SH * v)): continue
            if v in s.relvars and not (k < s.relvars[v]): continue
            # cyclic?
            rest = {m: c for m, c in n.items() if m != tops[0]}
            if s.reaches(P.vars_of(rest), v, k): continue
            cost = (k, 0 if s.vkind[v] != "sym" else 1, -v)
            if best is None or cost < best[0]: best = (cost, v, k, tops[0])
        if best is None: s.eqleft.append(n); return
        _, v, k, top = best
        c = n[top]; rest = P.scale({m: x for m, x in n.items() if m != top}, Fr(-1) / c)
        old = [r for r in s.rels if r[0] == v]
        s.rels = [r for r in s.rels if r[0] != v]
        # place so that rewriting terminates in one pass: variables of rest processed later (earlier in list)
        s.insertrel(v, k, rest)
        for _, k2, rest2 in old:
            s.addeq(s.reduce(P.sub(P.power(P.var(v), k2), rest2)))
    def reaches(s, vs, target, k):
        seen = set(); st = list(vs)
        while st:
            v = st.pop()
            if v in seen: continue
            seen.add(v)
            if v == target:
                return True
            for r in s.rels:
                if r[0] == v: st += P.vars_of(r[2])
        return False
    def insertrel(s, v, k, rest):
        s.rels.append((v, k, rest)); s.relvars[v] = k; s.fixrels()
        s.facts.append(s.zpoly(P.var(v, k)) == s.zpoly(rest))
    def fixrels(s):
        """order relations so that each rest only uses lead variables earlier in the list; clear caches"""
        lead = {r[0]: r for r in s.rels}; done = []; mark = {}
        def visit(v):
            if mark.get(v) == 2: return
            mark[v] = 1
            for u in P.vars_of(lead[v][2]):
                if u in lead and u != v and mark.get(u) != 1: visit(u)
            mark[v] = 2; done.append(lead[v])
        for r in s.rels: visit(r[0])
        s.rels = done
        for k in list(s.cache):
            a = s.cache[k]; s.cache[k] = RF(s.reduce(a.n), a.d)
        s.signcache = {k: v for k, v in s.signcache.items() if v != '?'}

    def taylor_facts(s, order):
        """alternating Taylor bounds, valid for every real angle (sin bounds multiplied by the angle)"""
        out = []
        for th, c, sn in s.taylor:
            t2 = th * th
            def series(kind, n):
                tot = z3.RealVal(0); f = 1; p = z3.RealVal(1); sg = 1
                for i in range(n + 1):
                    kk = 2 * i + (1 if kind == "s" else 0)
                    tot = tot + p * z3.RealVal(str(Fr(sg, math.factorial(kk)))); p = p * t2; sg = -sg
                return tot
            for n in range(order):
                lo = n % 2 == 1
                e = series("c", n); out.append(c >= e if lo else c <= e)
                e = series("s", n) * t2; out.append(th * sn >= e if lo else th * sn <= e)
        return out

def forked_check(mk, fs, ms, zv):
    """decide satisfiability in a child process: nonlinear arithmetic does not always honour time limits.
    Returns (result, {variable index: float} of a model or None)."""
    rd, wr = os.pipe(); sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        signal.setitimer(signal.ITIMER_REAL, 0)
        try:
            os.close(rd); signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.setitimer(signal.ITIMER_REAL, ms / 1000.0)
            out = "K"
            try:
                sol = mk(); sol.add(*fs); r = sol.check(); out = "S" if r == z3.sat else "U" if r == z3.unsat else "K"
                os.write(wr, out.encode())
                if r == z3.sat:
                    m = sol.model(); d = {}
                    for v, z in zv.items():
                        try:
                            x = z3val(m, z)
                            if x is not None: d[v] = x
                        except Exception: pass
                    os.write(wr, json.dumps(d).encode()[:60000])
            except Exception: os.write(wr, b"K")
        finally: os._exit(0)
    os.close(wr); data = b""
    while True:
        b = os.read(rd, 65536)
        if not b: break
        data += b
    os.close(rd); os.waitpid(pid, 0)
    if data[:1] == b"U": return z3.unsat, None
    if data[:1] == b"S":
        try: return z3.sat, {int(k): v for k, v in json.loads(data[1:].decode()).items()}
        except Exception: return z3.sat, None
    return z3.unknown, None

def lin_decide(N, lemmas):
    """Z3 decides: (all lemma polynomials = 0) => N = 0 over monomials as independent reals."""
    t = time.time(); STATS["z3_queries"] += 1; STATS["lin_queries"] += 1
    mv = {}; fs = []
    def lin(p):
        ts = []
        for m, c in p.items():
            if m == 0: ts.append(z3.RealVal(str(c))); continue
            v = mv.get(m)
            if v is None: v = mv[m] = z3.Real("m%d" % len(mv))
            ts.append(v if c == 1 else z3.RealVal(str(c)) * v)
        return z3.Sum(*ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))
    for l in lemmas: fs.append(lin(l) == 0)
    fs.append(lin(N) != 0)
    r, _ = forked_check(lambda: z3.SolverFor("QF_LRA"), fs, 20000, {}); STATS["z3_s"] += time.time() - t
    return r == z3.unsat

# ---------------------------------------------------------------- numeric evaluation
class Num:
    def __init__(s, nodes): s.nodes = nodes
    def order(s, roots):
        seen = set(); st = list(roots)
        while st:
            i = st.pop()
            if i in seen: continue
            seen.add(i); st += s.nodes[i][2]
        return sorted(seen)
    def eval(s, order, env):
        v = {}
        for i in order:
            op, w, k, aux = s.nodes[i]
            try:
                if op == "rconst": r = float(Fr(aux))
                elif op == "rpi": r = math.pi
                elif op == "rsym": r = env[aux]
                elif op == "rspecial": r = float("nan")
                elif op == "radd": r = v[k[0]] + v[k[1]]
                elif op == "rmul": r = v[k[0]] * v[k[1]]
                elif op == "rdiv": r = v[k[0]] / v[k[1]] if v[k[1]] != 0 else float("nan")
                elif op == "rlt": r = v[k[0]] < v[k[1]]
                elif op == "rle": r = v[k[0]] <= v[k[1]]
                elif op == "req": r = v[k[0]] == v[k[1]]
                elif op == "rfun":
                    a = v[k[0]]
                    if aux == "sqrt": r = math.sqrt(a) if a >= 0 else (0.0 if a > -1e-13 else float("nan"))
                    elif aux == "atan2": r = math.atan2(a, v[k[1]])
                    elif aux in ("acos", "asin"): r = getattr(math, aux)(max(-1.0, min(1.0, a)) if abs(a) < 1 + 1e-12 else float("nan"))
                    elif aux == "floor": r = float(math.floor(a))
                    elif aux == "pow": r = a ** v[k[1]]
                    else: r = getattr(math, aux)(a)
                elif op == "const": r = int(aux)
                elif op == "sym": r = env.get(aux, 0)
                elif op == "and": r = v[k[0]] & v[k[1]]
                elif op == "or": r = v[k[0]] | v[k[1]]
                elif op == "xor": r = v[k[0]] ^ v[k[1]]
                elif op == "eq": r = int(v[k[0]] == v[k[1]])
                elif op == "ite": r = v[k[1]] if v[k[0]] else v[k[2]]
                elif op == "ult": r = int(v[k[0]] < v[k[1]])
                else: r = 0
            except (ValueError, OverflowError, TypeError): r = float("nan")
            v[i] = r
        return v

def only_rounding(nodes, pc, goal, env):
    """True when, evaluated with 40 digits, the goal holds at env: what the floating-point evaluation saw was cancellation"""
    import mpmath
    num = Num(nodes); order = num.order([goal]); gops = []; gather_cmp(nodes, goal, True, gops)
    if nodes[goal][1] == 0 or any(o[0] == "bool" for o in gops): return False
    with mpmath.workdps(40):
        v = {}; M = mpmath
        try:
            for i in order:
                op, w, k, aux = nodes[i]
                if op == "rconst": f = Fr(aux); r = M.mpf(f.numerator) / f.denominator
                elif op == "rpi": r = M.pi()
                elif op == "rsym": r = M.mpf(env.get(aux, 0.0))
                elif op == "radd": r = v[k[0]] + v[k[1]]
                elif op == "rmul": r = v[k[0]] * v[k[1]]
                elif op == "rdiv": r = v[k[0]] / v[k[1]]
                elif op in ("rlt", "rle", "req"): r = {"rlt": v[k[0]] < v[k[1]], "rle": v[k[0]] <= v[k[1]], "req": v[k[0]] == v[k[1]]}[op]
                elif op == "rfun":
                    a = v[k[0]]
                    if aux == "sqrt": r = M.sqrt(a) if a > 0 else M.mpf(0)
                    elif aux == "atan2": r = M.atan2(a, v[k[1]])
                    elif aux in ("acos", "asin"): r = getattr(M, aux)(max(M.mpf(-1), min(M.mpf(1), a)))
                    elif aux == "floor": r = M.floor(a)
                    elif aux == "pow": r = M.power(a, v[k[1]])
                    else: r = getattr(M, aux)(a)
                elif op == "const": r = int(aux)
                elif op in ("and", "or", "xor", "eq"): r = {"and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b, "eq": lambda a, b: int(a == b)}[op](v[k[0]], v[k[1]])
                elif op == "ite": r = v[k[1]] if v[k[0]] else v[k[2]]
                else: return False
                v[i] = r
            for op, a, b, pos in gops:
                x, y = v[a], v[b]; sc = max(1, abs(x), abs(y))
                if op == "req":
                    if pos != (abs(x - y) <= 1e-9 * sc): return False
                else:
                    d = x - y if pos else y - x
                    if d > 1e-13 * sc or (d >= 0 and ((op == "rlt") == pos) and d == 0): return False
            return True
        except Exception: return False

def gather_cmp(nodes, i, pos, out):
    """flatten conjunctions of comparisons: list of (op, a, b, positive)"""
    op, w, k, aux = nodes[i]
    if op in ("rlt", "rle", "req"): out.append((op, k[0], k[1], pos)); return
    if op == "and" and pos: gather_cmp(nodes, k[0], pos, out); gather_cmp(nodes, k[1], pos, out); return
    if op == "or" and not pos: gather_cmp(nodes, k[0], pos, out); gather_cmp(nodes, k[1], pos, out); return
    if op == "xor":
        for a, b in ((0, 1), (1, 0)):
            o = nodes[k[a]]
            if o[0] == "const" and int(o[3]) == 1: gather_cmp(nodes, k[b], not pos, out); return
    if op == "eq" and nodes[k[0]][1] == 1:
        for a, b in ((0, 1), (1, 0)):
            o = nodes[k[a]]
            if o[0] == "const": gather_cmp(nodes, k[b], pos == (int(o[3]) == 1), out); return
    out.append(("bool", i, None, pos))

def find_candidates(nodes, pc, goal, syms, hints, budget, rng, want=6):
    """numeric candidates satisfying pc and violating goal (tolerantly)"""
    import numpy as np
    num = Num(nodes); order = num.order(pc + [goal]); cons = []
    for p in pc: gather_cmp(nodes, p, True, cons)
    gops = []
    if nodes[goal][1] == 0: gops.append(("req", goal, goal, True))
    else: gather_cmp(nodes, goal, True, gops)
    names = [n for n, w in syms if w == 0]; bvs = [(n, w) for n, w in syms if w != 0]
    fixed = {}
    for op, a, b, pos in cons:   # bit-vector symbols pinned by the path condition
        n = nodes[a]
        if op == "bool" and pos and n[0] == "eq":
            for x, y in (n[2], n[2][::-1]):
                while nodes[x][0] in ("zext", "sext", "trunc"): x = nodes[x][2][0]
                if nodes[x][0] == "sym" and nodes[y][0] == "const": fixed[nodes[x][3]] = int(nodes[y][3])
    out = []; t0 = time.time()
    def resid(v):
        r = []
        for op, a, b, pos in cons:
            if op == "bool": continue
            x, y = v[a], v[b]
            if op == "req":
                if pos: r.append(x - y)
                else: r.append(0.0 if x != y else 1.0)
            else:
                d = x - y if pos else y - x   # want d <= 0 (or < 0)
                r.append(max(0.0, d) if d == d else 1.0)
                if d == 0 and ((op == "rlt") == pos): r[-1] = 1e-9
        return r
    def bad(v):
        for op, a, b, pos in gops:
            if op == "bool":
                if bool(v[a]) != pos: return True
                continue
            x, y = v[a], v[b]
            if x != x or y != y or abs(x) == float('inf'): return True
            sc = max(1.0, abs(x), abs(y))
            if op == "req":
                if pos and abs(x - y) > 1e-8 * sc: return True
                if not pos and x == y: return True
            else:
                d = x - y if pos else y - x
                if d > 1e-12 * sc or (d >= 0 and ((op == "rlt") == pos) and d == 0): return True
        return False
    consts = [0.0, 1.0, -1.0, 0.5, 2.0, math.pi, -math.pi, math.pi / 2, -math.pi / 2]
    it = 0
    while time.time() - t0 < budget and len(out) < want:
        it += 1
        env = dict(hints[it - 1]) if it <= len(hints) else {}
        style = rng.random(); scale = 10 ** rng.uniform(-14, 1) if style < 0.3 else rng.choice([0.5, 1.0, 3.0])
        for n in names:
            if n in env: continue
            r = rng.random()
            env[n] = rng.choice(consts) if (style > 0.7 and r < 0.5) else rng.gauss(0, scale)
        for n, w in bvs:
            if n in fixed: env[n] = fixed[n]
            elif n not in env: env[n] = rng.choice([0, 1, 2, 3, (1 << w) - 1])
        for step in range(25):
            v = num.eval(order, env); r = resid(v)
            if not all(x == x for x in r): break
            if not r or max(abs(x) for x in r) < 1e-15: break
            # Gauss-Newton on the active residuals
            act = [i for i, x in enumerate(r) if x != 0]
            J = np.zeros((len(act), len(names)))
            for jn, n in enumerate(names):
                h = 1e-7 * max(abs(env[n]), 1e-3); e2 = dict(env); e2[n] += h
                r2 = resid(num.eval(order, e2))
                for ii, i in enumerate(act): J[ii, jn] = (r2[i] - r[i]) / h if r2[i] == r2[i] else 0
            try: dx = np.linalg.lstsq(J, -np.array([r[i] * 1.0 for i in act]), rcond=1e-12)[0]
            except Exception: break
            if not np.all(np.isfinite(dx)) or np.linalg.norm(dx) == 0: break
            for jn, n in enumerate(names): env[n] += float(dx[jn])
            if np.linalg.norm(dx) < 1e-16: break
        v = num.eval(order, env); r = resid(v)
        if r and (not all(x == x for x in r) or max(abs(x) for x in r) > 1e-9): continue
        if bad(v) and not only_rounding(nodes, pc, goal, env): out.append(env)
    return out

# ---------------------------------------------------------------- driver
def z3val(m, v):
    x = m.eval(v, model_completion=True)
    if z3.is_algebraic_value(x): x = x.approx(30)
    try: return float(Fr(x.numerator_as_long(), x.denominator_as_long()))
    except Exception: return None

class Group:
    """queries sharing one path condition"""
    def __init__(s, nodes, pc, deadline, budget):
        s.nodes = nodes; s.pc = pc; s.deadline = deadline; s.budget = budget; units = {}
        s.ctx = None; s.err = None
        for _ in range(30):
            c = Ctx(nodes, min(deadline, time.time() + budget), units); c.curdefs = []
            try:
                c.addpc(pc); s.ctx = c; break
            except Rescan: units = c.units; continue
            except Unsupported as e: s.err = str(e); break
        s.dead = None; s.units = units
    def rebuild(s):
        u = s.ctx.units
        for _ in range(30):
            c = Ctx(s.nodes, min(s.deadline, time.time() + s.budget), u); c.curdefs = []
            try: c.addpc(s.pc); s.ctx = c; return
            except Rescan: u = c.units
    def infeasible(s, ms=5000):
        if s.dead is None:
            if s.ctx.contradiction: s.dead = True
            else:
                r, _ = s.ctx.zsolve([], ms); s.dead = r == z3.unsat
                if not s.dead and s.ctx.taylor:
                    r, _ = s.ctx.zsolve(s.ctx.taylor_facts(4), ms); s.dead = r == z3.unsat
        return s.dead
    def prove_formula(s, f, ms=6000):
        c = s.ctx
        neg = z3.Not(f)
        if z3.is_false(z3.simplify(neg)): return True, None
        r, m = c.zsolve([neg], ms)
        if r == z3.unsat: return True, None
        if c.taylor:
            for order in (2, 4, 6):
                if time.time() > s.deadline: break
                r2, m2 = c.zsolve([neg] + c.taylor_facts(order), ms)
                if r2 == z3.unsat: return True, None
                if r2 == z3.sat: m = m2
        return False, m
    def hint(s, m):
        if m is None: return None
        h = {}
        for key, v in s.ctx.vidx.items():
            if key[0] == "sym" and v in m: h[key[1]] = m[v]
        return h

def flatten_goal(nodes, g):
    op, w, k, aux = nodes[g]
    if op == "and" and w == 1: return flatten_goal(nodes, k[0]) + flatten_goal(nodes, k[1])
    return [g]

def prove_goal(grp, q, g):
    """returns (proved, hint)"""
    c = grp.ctx; nodes = grp.nodes
    c.deadline = min(grp.deadline, time.time() + grp.budget)
    op, w, kids, aux = nodes[g]
    hint = None; defs = []
    if op == "const":
        if int(aux): return True, None
        return (True, None) if grp.infeasible() else (False, None)
    if op == "req" and w == 1:
        a, b = c.tr(kids[0]), c.tr(kids[1])
        defs = c.nodedefs.get(kids[0], []) + c.nodedefs.get(kids[1], [])
        ok = False
        if q["kind"] == "finite": ok = True
        else:
            d = c.radd(a, c.rneg(b)); lem = []; r = c.reduce(d.n, lem)
            if not r:
                # redo the difference unreduced so that Z3 sees the rewriting lemmas
                N = raw_diff(c, a, b); lem = []; r2 = c.reduce(N, lem)
                ok = not r2 and lin_decide(N, lem)
            if not ok:
                d = c.cancel(d); lem = []; r = c.reduce(d.n, lem)
                ok, m = grp.prove_formula(c.zpoly(r) == 0)
                if not ok: hint = grp.hint(m)
    elif w == 0:
        c.tr(g); defs = c.nodedefs.get(g, []); ok = True
    else:
        f = c.zbool(g, defs)
        ok, m = grp.prove_formula(f)
        if not ok: hint = grp.hint(m)
    if not ok:
        return ((True, None) if grp.infeasible() else (False, hint))
    # definedness of everything the goal mentions
    seen = set()
    for f, descr in defs:
        if f.get_id() in seen: continue
        seen.add(f.get_id())
        okd, h = prove_def(grp, f)
        if not okd:
            return ((True, None) if grp.infeasible() else (False, h))
    return True, None

def raw_diff(c, a, b):
    """numerator of a - b without reduction"""
    da, db = dict(a.d), dict(b.d); l = dict(da)
    for f, e in db.items(): l[f] = max(l.get(f, 0), e)
    na, nb = a.n, b.n
    for f, e in l.items():
        if e > da.get(f, 0): na = P.mul(na, c.fpow(f, e - da.get(f, 0)))
        if e > db.get(f, 0): nb = P.mul(nb, c.fpow(f, e - db.get(f, 0)))
    return P.sub(na, nb)

def prove_def(grp, f):
    k = f.get_id(); cache = grp.__dict__.setdefault("defcache", {})
    if k not in cache:
        ok, m = grp.prove_formula(f, 6000)
        cache[k] = (ok, None if ok else grp.hint(m), f)
    return cache[k][:2]

def run(inp, budget_q=20.0, total=600.0, seed=1, cand_budget=6.0, verbose=False, progress=None):
    d = inp if isinstance(inp, dict) else json.load(open(inp))
    nodes = {n[0]: (n[1], n[2], n[3], n[4]) for n in d["nodes"]}
    deadline = time.time() + total; rng = random.Random(seed)
    groups = {}; res = []
    t0 = time.time()
    # same goal under same pc appears often: deduplicate
    memo = {}
    for qi, q in enumerate(d["queries"]):
        key = tuple(q["pc"])
        mk = (key, q["goal"], q["kind"] == "finite")
        if mk in memo: res.append(dict(memo[mk], msg=q["msg"], kind=q["kind"], loc=q.get("loc", ""), dup=True)); continue
        r = dict(msg=q["msg"], kind=q["kind"], loc=q.get("loc", ""), verdict="unknown", why="")
        tq = time.time()
        if time.time() > deadline: r["why"] = "total time"; res.append(r); continue
        g = groups.get(key)
        if g is None:
            g = groups[key] = Group(nodes, list(q["pc"]), deadline, budget_q)
            if len(groups) > 4:
                for k0 in list(groups)[:1]:
                    if k0 != key: del groups[k0]
        hints = []; allok = True; why = ""
        if g.ctx is None: allok = False; why = g.err or "rescan"
        else:
            for sub in flatten_goal(nodes, q["goal"]):
                for attempt in range(20):
                    try:
                        ok, h = prove_goal(g, q, sub); break
                    except Rescan: g.rebuild(); g.__dict__.pop("defcache", None); ok, h = False, None
                    except Unsupported as e: ok, h = False, None; why = str(e); break
                    except z3.Z3Exception as e: ok, h = False, None; why = "z3: " + str(e); break
                if not ok and why and why != "time":
                    try:
                        if g.infeasible(): ok = True
                    except Exception: pass
                if not ok:
                    allok = False
                    if h: hints.append(h)
                    break
        if allok: r["verdict"] = "proved"
        else:
            r["why"] = why
            c = find_candidates(nodes, list(q["pc"]), q["goal"] if q["kind"] != "finite" else q["goal"], d.get("syms", symlist(nodes)), hints, cand_budget, rng)
            r["candidates"] = c + [h for h in hints if q["kind"] == "finite" or not only_rounding(nodes, q["pc"], q["goal"], h)]
        r["s"] = round(time.time() - tq, 3)
        if verbose and (r["verdict"] != "proved" or r["s"] > 2): print(qi, r["verdict"], r["msg"], r["s"], r["why"], len(r.get("candidates", [])), flush=True)
        memo[mk] = r; res.append(r)
        if progress: progress(res)
    return dict(results=res, stats=dict(STATS), wall=round(time.time() - t0, 2))

def symlist(nodes):
    r = []
    for i, (op, w, k, aux) in nodes.items():
        if op == "rsym": r.append((aux, 0))
        elif op == "sym": r.append((aux, w))
    return r

if __name__ == "__main__":
    out = run(sys.argv[1], verbose=True, total=float(sys.argv[2]) if len(sys.argv) > 2 else 600)
    from collections import Counter
    print(Counter(r["verdict"] for r in out["results"]), out["stats"], out["wall"])
    for r in out["results"]:
        if r["verdict"] != "proved": print(r["msg"], r["why"], r.get("candidates", [])[:1]); break
