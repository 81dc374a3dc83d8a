"""Forward rounding analysis: absolute and relative bounds of the difference between what is computed and the formula over the reals."""
import math
import nodes as N

INF = float('inf')
U = 1.2e-16          # half a unit in the last place, relative
LIB = 2.3e-16        # sine, cosine: one ulp of a number up to 1


def half(m):
    return math.ulp(m) / 2 if m < INF else INF


def grid(v):
    """v is a multiple of 2^k"""
    if v == 0:
        return 400
    m, d = v.as_integer_ratio()
    return -(d.bit_length() - 1) if d > 1 else min(400, (m & -m).bit_length() - 1)


def squares(n):
    """the terms of a sum of squares"""
    if n.op == 'fadd':
        a, b = squares(n.args[0]), squares(n.args[1])
        return a + b if a is not None and b is not None else None
    return [n.args[0]] if n.op == 'fmul' and n.args[0] is n.args[1] else None


class Rounding:
    """cx: the intervals; grids: nodes known to be multiples of a power of two (node -> exponent); exact angles: sines and cosines
    are taken at the angle they are given"""

    def __init__(self, cx, grids=(), angles=False):
        self.cx, self.grids, self.angles = cx, dict(grids), angles
        self.memo, self.rmemo, self.gmemo, self.busy = {}, {}, {}, set()

    def iv(self, n):
        return self.cx.iv(n)

    def mag(self, n):
        iv = self.cx.iv(n)              # a NaN is another check's concern
        return max(abs(iv[0]), abs(iv[1]))

    def low(self, n):
        iv = self.cx.iv(n)
        return iv[0] if iv[0] > 0 else -iv[1] if iv[1] < 0 else 0.0

    # multiples of 2^g: sums of those that fit are exact
    def g(self, n):
        r = self.gmemo.get(n, 0)
        if n not in self.gmemo:
            r = self.gmemo[n] = self._g(n)
        return r

    def _g(self, n):
        op, a = n.op, n.args
        if n in self.grids:
            return self.grids[n]
        if op == 'fc':
            return grid(n.p if isinstance(n.p, float) else N.cval(n))
        if op in ('i2f', 'ffloor', 'fceil', 'ftrunc', 'fround', 'froundeven'):
            return 0
        if op in ('fneg', 'fabs'):
            return self.g(a[0])
        k = [self.g(x) for x in a if x.kind == 'f'] if op in ('fadd', 'fsub', 'fmul', 'frem', 'fmin', 'fmax', 'fite') else [None]
        if None in k:
            return None
        k = sum(k) if op == 'fmul' else min(k)
        return k if op in ('frem', 'fmin', 'fmax', 'fite') or (-900 < k < 900 and self.mag(n) <= 2.0 ** (53 + k)) else None

    def err(self, n):
        """bound of the absolute error"""
        r = self.memo.get(n)
        if r is None:
            e = self._err(n)
            if e != e:
                e = INF
            m = self.mag(n)
            if e > 0 and m < INF:
                q = self.rel(n)
                e = min(e, q * m) if q < INF else e
            r = self.memo[n] = e
        return r

    def rel(self, n):
        """bound of the relative error; infinite when unknown"""
        r = self.rmemo.get(n)
        if r is None:
            self.rmemo[n] = INF
            r = self._rel(n)
            r = self.rmemo[n] = r if r == r else INF
        return r

    def _rel(self, n):
        op, a = n.op, n.args
        if op in ('fc', 'fs', 'i2f') or n in self.grids:
            return 0.0
        if op in ('fneg', 'fabs', 'fcopysign'):
            return self.rel(a[0])
        if op in ('fmul', 'fdiv'):
            if op == 'fmul' and self.g(n) is not None and not self.rel(a[0]) and not self.rel(a[1]):
                return 0.0
            return (self.rel(a[0]) + self.rel(a[1])) * (1 + 1e-6) + U
        if op == 'fsqrt':
            return self.rel(a[0]) / 2 * (1 + 1e-6) + U
        if op in ('fadd', 'fsub'):
            x, y = self.iv(a[0]), self.iv(a[1])
            if op == 'fsub':
                y = (-y[1], -y[0])
            if (x[0] >= 0 and y[0] >= 0) or (x[1] <= 0 and y[1] <= 0):
                return max(self.rel(a[0]), self.rel(a[1])) + U
        if op == 'fite':
            d = self.cx.decide(a[0])
            l = a[1:3] if d is None else [a[1] if d else a[2]]
            return max(self.rel(x) for x in l)
        if op == 'fatan' or op == 'fsin' and self.mag(a[0]) < 1.5:
            return self.rel(a[0]) + 2 * U
        lo = self.low(n)
        if lo > 0:
            e = self.memo.get(n)
            e = self._err(n) if e is None else e
            return e / lo
        return INF

    def _err(self, n):
        op, a = n.op, n.args
        h = half(self.mag(n))
        if op in ('fc', 'fs', 'i2f') or n in self.grids:
            return 0.0
        if op == 'fopq' and n.p == 'f32':
            return self.err(a[0]) + 6e-8 * self.mag(a[0])
        if op in ('fadd', 'fsub'):
            e = self.err(a[0]) + self.err(a[1])
            return e if self.g(n) is not None or not self.mag(a[0]) or not self.mag(a[1]) else e + h
        if op in ('fmul', 'ffma'):
            e, f = self.err(a[0]), self.err(a[1])
            t = (self.mag(a[1]) * e if e else 0.0) + (self.mag(a[0]) * f if f else 0.0) + (e * f if e and f else 0.0)
            if op == 'ffma':
                return t + self.err(a[2]) + h
            one = N.fc(1.0)
            return t if self.g(n) is not None or a[0] is one or a[1] is one else t + h
        if op == 'fdiv':
            lo = self.low(a[1])
            e, f = self.err(a[0]), self.err(a[1])
            return (e + (self.mag(n) * f if f else 0.0)) / (lo - f) + h if lo > f else INF
        if op in ('fneg', 'fabs', 'fcopysign'):
            return self.err(a[0])
        if op in ('fmin', 'fmax'):
            return max(self.err(a[0]), self.err(a[1]))
        if op == 'frem':
            # exact; an error of the dividend adds or removes whole multiples of the divisor only
            return self.err(a[0]) if not self.err(a[1]) else INF
        if op in ('ffloor', 'fceil', 'ftrunc', 'fround', 'froundeven'):
            return 0.0 if not self.err(a[0]) else INF
        if op == 'fite':
            d = self.cx.decide(a[0])
            if d is not None:
                return self.err(a[1] if d else a[2])
            return max(self.err(a[1]), self.err(a[2]))
        if op in ('fsin', 'fcos'):
            return LIB if self.angles else self.err(a[0]) + LIB
        if op == 'fatan':
            return self.err(a[0]) + 2 * h
        if op == 'fatan2':
            q = max(self.rel(a[0]), self.rel(a[1]))
            lo = max(self.low(a[0]), self.low(a[1]))
            t = (self.err(a[0]) + self.err(a[1])) / lo if lo > 0 else INF
            return min(q, t) + 2 * h
        if op in ('facos', 'fasin'):
            e = self.err(a[0])
            lo = 1 - (self.mag(a[0]) + e) ** 2
            return (min(2.3 * math.sqrt(e), e / math.sqrt(lo) if lo > 0 else INF) if e else 0.0) + 2 * h
        if op == 'fsqrt':
            sq = squares(a[0])
            if sq is not None:
                # the length of a vector moves by no more than its components do
                return sum(self.err(x) for x in sq) + 3 * len(sq) * h
            lo = self.low(a[0])
            e = self.err(a[0])
            return (e / (2 * math.sqrt(lo - e)) if lo > e else math.sqrt(e)) + h
        return INF
