"""Taylor models with rounding: an abstract domain for accuracy bounds.

A value is u^k * T where u >= 0 is the chart's distance from its edge, k an integer and T a Taylor model: a polynomial in
two variables in [-1, 1] and a bound on everything the polynomial leaves out, which includes the rounding of every
floating-point operation evaluated so far. Because the power of u is kept apart, relative accuracy survives next to the
edge, where u goes to zero.
"""
import math
from fractions import Fraction

EPS = 2.0 ** -53
LIBM = 4e-16            # relative error of a library function
DEG = 9
IDX = [(i, j) for t in range(DEG + 1) for i in range(t, -1, -1) for j in (t - i,)]
POS = {x: n for n, x in enumerate(IDX)}
TOT = [i + j for i, j in IDX]
K = len(IDX)
PROD = [[(b, POS[(IDX[a][0] + IDX[b][0], IDX[a][1] + IDX[b][1])]) for b in range(K) if TOT[a] + TOT[b] <= DEG] for a in range(K)]
EVEN = [n for n, (i, j) in enumerate(IDX) if n and i % 2 == 0 and j % 2 == 0]


class Fail(Exception):
    """the domain is too coarse for this operation"""


class TM:
    __slots__ = ('p', 'r', 'n1')

    def __init__(self, p, r=0.0):
        self.p, self.r = p, r * (1 + 1e-14)
        self.n1 = sum(map(abs, p))
        if not (self.n1 < 1e300 and r < 1e300):
            raise Fail('unbounded value')

    @staticmethod
    def const(x, r=0.0):
        return TM([float(x)] + [0.0] * (K - 1), r)

    @staticmethod
    def var(c, w, which):
        t = TM.const(c)
        t.p[POS[(1, 0) if which == 0 else (0, 1)]] = w
        return TM(t.p)

    def range(self):
        s = self.n1 - abs(self.p[0])
        lo = hi = self.p[0]
        ev = sum(self.p[n] for n in EVEN if self.p[n] > 0), sum(self.p[n] for n in EVEN if self.p[n] < 0)
        odd = s - ev[0] + ev[1]
        m = self.r + 1e-14 * self.n1
        return lo - odd + ev[1] - m, hi + odd + ev[0] + m

    def mag(self):
        lo, hi = self.range()
        return max(abs(lo), abs(hi))

    def __add__(self, o):
        return TM([a + b for a, b in zip(self.p, o.p)], self.r + o.r + EPS * (self.n1 + o.n1))

    def __neg__(self):
        return TM([-a for a in self.p], self.r)

    def __sub__(self, o):
        return self + -o

    def scale(self, x):
        return TM([a * x for a in self.p], abs(x) * self.r + EPS * abs(x) * self.n1)

    def err(self, e):
        """the same with e more of uncertainty"""
        return TM(self.p, self.r + e)

    def __mul__(self, o):
        r = [0.0] * K
        q = o.p
        for a, x in enumerate(self.p):
            if x:
                for b, n in PROD[a]:
                    r[n] += x * q[b]
        ga, gb = [0.0] * (DEG + 1), [0.0] * (DEG + 1)
        for n in range(K):
            ga[TOT[n]] += abs(self.p[n])
            gb[TOT[n]] += abs(q[n])
        drop, acc = 0.0, 0.0
        for d in range(1, DEG + 1):
            acc += gb[DEG + 1 - d]            # degrees above DEG - d
            drop += ga[d] * acc
        return TM(r, drop + self.r * o.n1 + o.r * self.n1 + self.r * o.r + 64 * EPS * self.n1 * o.n1)

    def series(self, c, coefs, rest):
        """sum of coefs[n] * (self/c - 1)^n, rest bounds the tail"""
        d = self.scale(1 / c)
        d = TM([d.p[0] - 1] + d.p[1:], d.r + 2 * EPS)
        out = TM.const(coefs[-1])
        for x in reversed(coefs[:-1]):
            out = out * d + TM.const(x)
        return out.err(rest)

    def dev(self):
        """centre, and the largest distance from it"""
        lo, hi = self.range()
        c = self.p[0]
        return c, max(hi - c, c - lo)

    def inv(self):
        c, d = self.dev()
        if not d < 0.95 * abs(c):
            raise Fail('division by a quantity that may vanish')
        t = d / abs(c)
        n = DEG + 1
        while t ** n > 1e-18 and n < 60:
            n += 1
        return self.series(c, [(-1) ** i for i in range(n)], t ** n / (1 - t) + 1e-15).scale(1 / c)

    def sqrt(self):
        c, d = self.dev()
        if not (c > 0 and d < 0.95 * c):
            raise Fail('square root of a quantity that may vanish')
        t = d / c
        co, b, n = [], 1.0, DEG + 1
        while t ** n > 1e-18 and n < 60:
            n += 1
        for i in range(n):
            co.append(b)
            b *= (0.5 - i) / (i + 1)
        return self.series(c, co, t ** n / (1 - t) + 1e-15).scale(math.sqrt(c))


class V:
    """u^k * T; zero has k None"""
    __slots__ = ('k', 't')

    def __init__(self, k, t):
        self.k, self.t = k, t


ZERO = V(None, TM.const(0))


class Chart:
    """u in [u0, u1], the distance from an edge"""

    def __init__(self, u0, u1):
        self.u0, self.u1 = u0, u1
        self.c, self.w = (u0 + u1) / 2, (u1 - u0) / 2 * (1 + 1e-15)
        self.u = TM.var(self.c, self.w, 0)
        self.pw = {0: TM.const(1), 1: self.u}

    def upow(self, n):
        if n not in self.pw:
            self.pw[n] = self.upow(n - 1) * self.u
        return self.pw[n]

    def at(self, v, k):
        if v.k is None:
            return v.t
        return v.t if v.k == k else v.t * self.upow(v.k - k)

    # --- exact operations
    def add(self, a, b):
        if a.k is None or b.k is None:
            return b if a.k is None else a
        k = min(a.k, b.k)
        return V(k, self.at(a, k) + self.at(b, k))

    def neg(self, a):
        return V(a.k, -a.t)

    def mul(self, a, b):
        return ZERO if a.k is None or b.k is None else V(a.k + b.k, a.t * b.t)

    def div(self, a, b):
        if b.k is None:
            raise Fail('division by zero')
        return ZERO if a.k is None else V(a.k - b.k, a.t * b.t.inv())

    def sqrt(self, a):
        if a.k is None:
            return a
        if a.k % 2:
            raise Fail('square root of an odd power')
        return V(a.k // 2, a.t.sqrt())

    def rounded(self, a, e=EPS):
        return a if a.k is None else V(a.k, a.t.err(e * a.t.mag()))

    def range(self, a):
        if a.k is None:
            return 0.0, 0.0
        lo, hi = a.t.range()
        if a.k == 0:
            return lo, hi
        f = [(self.u0 if self.u0 > 0 or a.k > 0 else 5e-324), self.u1]
        try:
            f = sorted(x ** a.k for x in f)
        except (OverflowError, ZeroDivisionError):
            f = [0.0, math.inf]
        m = 1e-14
        return (lo * (f[0] * (1 - m) if lo > 0 else f[1] * (1 + m)), hi * (f[1] * (1 + m) if hi > 0 else f[0] * (1 - m)))

    def sign(self, a):
        """'+', '-', '0' or None; u is positive"""
        if a.k is None:
            return '0'
        lo, hi = a.t.range()
        return '+' if lo > 0 else '-' if hi < 0 else None

    def less(self, a, b, strict):
        d = self.add(b, self.neg(a))
        s = self.sign(d)
        if s == '+':
            return True
        if s == '-':
            return False
        if s == '0':
            return not strict
        (al, ah), (bl, bh) = self.range(a), self.range(b)
        if ah < bl or not strict and ah <= bl:
            return True
        if al > bh or strict and al >= bh:
            return False
        return None


def exact(x):
    return V(0, TM.const(x)) if x else ZERO


def rat(q):
    """a rational constant"""
    q = Fraction(q)
    f = float(q)
    return V(0, TM.const(f, abs(float(q - Fraction(f))) * 1.01 + (1e-320 if Fraction(f) != q else 0))) if q else ZERO


class Fork(Exception):
    def __init__(self, node):
        self.node = node


class Eval:
    """the nodes of a program over one chart, under a choice for the conditions the chart does not decide"""

    def __init__(self, chart, phi, phiv, cosv, sinv, known, lam, choice):
        self.c, self.phi, self.lam, self.choice = chart, phi, lam, choice
        self.cos, self.sin = cosv, sinv
        self.memo = dict(known)
        self.memo[phi] = phiv
        self.dep, self.gone = {}, set()

    # --- conditions
    def truth(self, n):
        op = n.op
        if op == 'bc':
            return n.p
        if op == 'not':
            return not self.truth(n.args[0])
        if op == 'bite':
            return self.truth(n.args[1] if self.truth(n.args[0]) else n.args[2])
        if n in self.choice:
            return self.choice[n]
        r = None
        if op in ('flt', 'fle', 'feq'):
            a, b = self.val(n.args[0]), self.val(n.args[1])
            if op == 'feq':
                s = self.c.sign(self.c.add(a, self.c.neg(b)))
                r = True if s == '0' else False if s else None
            else:
                r = self.c.less(a, b, op == 'flt')
        if r is None:
            raise Fork(n)
        return r

    # --- numbers
    def val(self, n):
        r = self.memo.get(n)
        if r is None:
            if self.depends(n):
                raise Fail('the longitude does not cancel')
            r = self.memo[n] = self.longitude(n) if n in self.gone else self.eval(n)
        return r

    def eval(self, n):
        import nodes as N
        op, a, c = n.op, n.args, self.c
        if op == 'fc':
            return exact(n.p if isinstance(n.p, float) else N.cval(n))
        if op in ('ic', 'i2f') and not a:
            return exact(float(n.p))
        if op == 'fite':
            return self.val(a[1] if self.truth(a[0]) else a[2])
        if op in ('fadd', 'fsub'):
            x, y = self.val(a[0]), self.val(a[1])
            return c.rounded(c.add(x, c.neg(y) if op == 'fsub' else y))
        if op == 'fmul':
            return c.rounded(c.mul(self.val(a[0]), self.val(a[1])))
        if op == 'fdiv':
            return c.rounded(c.div(self.val(a[0]), self.val(a[1])))
        if op == 'ffma':
            return c.rounded(c.add(c.mul(self.val(a[0]), self.val(a[1])), self.val(a[2])))
        if op == 'fneg':
            return c.neg(self.val(a[0]))
        if op == 'fsqrt':
            return c.rounded(c.sqrt(self.val(a[0])))
        if op in ('fabs', 'fcopysign'):
            x = self.val(a[0])
            s = c.sign(x)
            t = '+' if op == 'fabs' else self.sgn(a[1])
            if s is None or t is None:
                raise Fail('sign of a quantity that may vanish')
            return x if s == t or s == '0' or t == '0' and s == '+' else c.neg(x)
        if op in ('fmin', 'fmax'):
            x, y = self.val(a[0]), self.val(a[1])
            l = c.less(x, y, False)
            if l is None:
                raise Fail('minimum or maximum of close quantities')
            return x if l == (op == 'fmin') else y
        if op in ('fsin', 'fcos', 'ftan'):
            C, S, e = self.angle(a[0])
            if a[0] is not self.phi:
                q = c.sqrt(c.add(c.mul(C, C), c.mul(S, S)))
                C, S = c.div(C, q), c.div(S, q)
            r = c.div(S, C) if op == 'ftan' else S if op == 'fsin' else C
            if e:
                if op == 'ftan':
                    raise Fail('tangent of a rounded angle')
                r = c.add(r, V(0, TM.const(0, e)))
            return c.rounded(r, LIBM)
        raise Fail('operation %s' % op)

    def sgn(self, n):
        """the sign of a quantity, of an angle too"""
        if n.op in ('fmul', 'fdiv'):
            x, y = self.sgn(n.args[0]), self.sgn(n.args[1])
            return None if x is None or y is None or y == '0' and n.op == 'fdiv' else '0' if '0' in (x, y) else '+' if x == y else '-'
        if n.op == 'fneg':
            x = self.sgn(n.args[0])
            return {'+': '-', '-': '+'}.get(x, x)
        if n.op in ('fatan', 'fatan2', 'fasin'):
            # the sine has the sign of an angle between half turns
            return self.c.sign(self.angle(n)[1])
        if n.op == 'fite':
            return self.sgn(n.args[1] if self.truth(n.args[0]) else n.args[2])
        return self.c.sign(self.val(n))

    # --- angles as (cos, sin) up to a common positive factor, and an absolute error
    def angle(self, n):
        op, a, c = n.op, n.args, self.c
        if n is self.phi:
            return self.cos, self.sin, 0.0
        if op == 'fc':
            x = n.p if isinstance(n.p, float) else self.cval(n)
            return V(0, TM.const(math.cos(x), 1e-16)), V(0, TM.const(math.sin(x), 1e-16)), 0.0
        if op == 'fite':
            return self.angle(a[1] if self.truth(a[0]) else a[2])
        if op == 'fatan':
            return V(0, TM.const(1)), self.val(a[0]), 1.6 * LIBM
        if op == 'fatan2':
            return self.val(a[1]), self.val(a[0]), 3.2 * LIBM
        if op == 'fneg':
            C, S, e = self.angle(a[0])
            return C, c.neg(S), e
        if op in ('fabs', 'fcopysign'):
            b = a[0]
            while b.op == 'fite':
                b = b.args[1 if self.truth(b.args[0]) else 2]
            C, S, e = self.angle(b)
            s = c.sign(S)
            t = '+' if op == 'fabs' else self.sgn(a[1])
            # the sine has the sign of an angle between half turns
            half = b.op == 'fatan' or b.op == 'fc' and abs(self.cval(b)) < 3
            if s is None or t is None or not half and c.sign(C) not in ('+', '0'):
                raise Fail('sign of an angle that may vanish')
            return (C, S, e) if s == t or s == '0' or t == '0' and s == '+' else (C, c.neg(S), e)
        if op in ('fadd', 'fsub'):
            (C, S, e), (D, T, f) = self.angle(a[0]), self.angle(a[1])
            if op == 'fsub':
                T = c.neg(T)
            return c.add(c.mul(C, D), c.neg(c.mul(S, T))), c.add(c.mul(S, D), c.mul(C, T)), e + f + 7e-16
        if op == 'fmul':
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                try:
                    v = self.val(x)
                except Fail:
                    continue
                if v.k == 0 and v.t.n1 == abs(v.t.p[0]) == 1 and not v.t.r:
                    C, S, e = self.angle(y)
                    return C, S if v.t.p[0] == 1 else c.neg(S), e
        raise Fail('angle by operation %s' % op)

    def cval(self, n):
        import nodes as N
        return N.cval(n)

    # --- what involves the longitude: it has to cancel algebraically
    def depends(self, n):
        r = self.dep.get(n)
        if r is None:
            r = n is self.lam or any(self.depends(x) for x in n.args)
            if r and n.op in ('fadd', 'fsub', 'ffma', 'fsqrt', 'fdiv'):
                self.dep[n] = True
                A, names = self.algebra(n)
                if all(at in names for m in A.nf(n) for at, _ in m):
                    self.gone.add(n)
                    r = False
            self.dep[n] = r
        return r

    def rel(self, n, top=False):
        """relative rounding error of the operations that involve the longitude"""
        op, a = n.op, n.args
        if n is self.lam or not top and not self.depends(n):
            return 0.0
        if op in ('fsin', 'fcos'):
            if a[0] is not self.lam:
                raise Fail('function of an expression of the longitude')
            return LIBM
        if op in ('fmul', 'fdiv'):
            return self.rel(a[0]) + self.rel(a[1]) + 2 * EPS
        if op in ('fadd', 'fsub', 'ffma'):
            t = [(a[0], a[1]), (a[2],)] if op == 'ffma' else [(a[0],), (a[1],)]
            rs = [sum(map(self.rel, x)) for x in t]
            if op != 'fsub' and all(len(x) == 1 and self.positive(x[0]) or len(x) == 2 and (x[0] is x[1] or all(map(self.positive, x))) for x in t):
                return max(rs) + 2 * EPS
            return self.ratio(t, rs, -1 if op == 'fsub' else 1) + 2 * EPS
        if op == 'fsqrt':
            return self.rel(a[0]) + 2 * EPS
        if op in ('fneg', 'fabs'):
            return self.rel(a[0])
        raise Fail('operation %s on the longitude' % op)

    def ratio(self, t, rs, sg):
        """relative error of a sum whose terms hold the same function of the longitude"""
        A, names = self.algebra(*[x for y in t for x in y])
        ms = []
        for y in t:
            co, ex = Fraction(1), {}
            for x in y:
                P = A.nf(x)
                if len(P) != 1:
                    raise Fail('sum of terms of unknown sign')
                ((m, k),) = P.items()
                co *= Fraction(k)
                for at, e in m:
                    ex[at] = ex.get(at, 0) + e
            ms.append((co, ex))
        (c1, e1), (c2, e2) = ms
        q = tuple((at, e2.get(at, 0) - e1.get(at, 0)) for at in {**e1, **e2})
        v = self.poly({tuple(x for x in q if x[1]): sg * c2 / c1}, names)
        Q = max(map(abs, self.c.range(v)))
        one = self.c.range(self.c.add(v, V(0, TM.const(1))))
        if not one[0] > 0:
            raise Fail('sum of terms that may cancel')
        return (rs[0] + Q * rs[1]) / one[0]

    def positive(self, n):
        if n.op == 'fmul':
            return n.args[0] is n.args[1] or all(self.positive(x) for x in n.args)
        if n.op in ('fabs', 'fsqrt'):
            return True
        if n.op in ('fadd', 'fdiv'):
            return all(self.positive(x) for x in n.args)
        return not self.depends(n) and self.c.sign(self.val(n)) in ('+', '0')

    def algebra(self, *roots):
        """the roots over the longitude and the maximal parts that do not involve it"""
        from nf import Alg
        cut, seen, fl = {}, set(), []

        def go(n):
            if n in seen:
                return
            seen.add(n)
            if n.op == 'fite':
                fl.append(n)
            for x in n.args:
                if self.depends(x):
                    go(x)
                elif x.op != 'fc' and x.kind == 'f':
                    cut[x] = 'part%d' % x.id
        for r in roots:
            go(r)
        A = Alg(cut=cut)
        names = {}
        for x in cut:
            P = A.nf(x)
            ((m, co),) = P.items()
            names[m[0][0]] = x
            s = self.c.sign(self.val(x))
            if s:
                A.fact(P, s)
        return A, names

    def longitude(self, n):
        A, names = self.algebra(n)
        return self.c.rounded(self.poly(A.nf(n), names), self.rel(n, True))

    def poly(self, P, names):
        """a polynomial over values"""
        out = ZERO
        for m, co in P.items():
            v = rat(Fraction(co) if not isinstance(co, Fraction) else co)
            for at, e in m:
                if at not in names:
                    raise Fail('the longitude does not cancel')
                x = self.val(names[at])
                for _ in range(abs(e)):
                    v = self.c.mul(v, x) if e > 0 else self.c.div(v, x)
            out = self.c.add(out, v)
        return out
