"""Hash-consed value graph (gated, single assignment) with an interval evaluation under path facts.

Floats are kept as the exact IEEE operation DAG the program performs; integers as canonical linear
forms over the integers; booleans as canonical comparisons and gated combinations of them.
Nothing here runs the program: nodes describe values, contexts describe what is known on a path.
"""
import math
from fractions import Fraction

INF = math.inf
NAN = math.nan
FMAX = 1.7976931348623157e308

_table = {}
_ids = [0]


class Node:
    __slots__ = ('op', 'args', 'p', 'id', 'kind')

    def __repr__(self):
        return show(self, 3)


KIND = {}
for _o in ('fc fs fadd fsub fmul fdiv frem fneg fabs fsqrt fsin fcos ftan fasin facos fatan fatan2 ffloor fceil '
           'fround ftrunc ffma fpow fexp fln flog10 fmin fmax fcopysign fite i2f ffun fcbrt ftanh fsinh fcosh fopq froundeven').split():
    KIND[_o] = 'f'
for _o in 'ic is lin idv itd itm imul f2i iite iwrap ibit iopq'.split():
    KIND[_o] = 'i'
for _o in 'bc bs not bite flt fle feq ilt0 ieq0 bopq'.split():
    KIND[_o] = 'b'


def mk(op, args=(), p=None):
    key = (op, tuple(a.id for a in args), p)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op = op
        n.args = args
        n.p = p
        n.kind = KIND[op]
        _ids[0] += 1
        n.id = _ids[0]
        _table[key] = n
    return n


def reset():
    _table.clear()
    SYMR.clear()
    _fresh[0] = 0


_fresh = [0]
SYMR = {}      # node -> interval of a symbol / opaque


def fresh_name(prefix):
    _fresh[0] += 1
    return '%s$%d' % (prefix, _fresh[0])


def show(n, d=4):
    if not isinstance(n, Node):
        return repr(n)
    if n.op in ('fc', 'ic', 'bc'):
        return repr(n.p[0] if isinstance(n.p, tuple) else n.p)
    if n.op in ('fs', 'is', 'bs'):
        return str(n.p)
    if d == 0:
        return '#%d' % n.id
    if n.op == 'lin':
        c, ts = n.p
        s = ['%+d*%s' % (k, show(a, d - 1)) for a, k in zip(n.args, ts)]
        if c:
            s.append('%+d' % c)
        return '(' + ' '.join(s) + ')'
    p = '' if n.p is None else '[%s]' % (n.p,)
    return '%s%s(%s)' % (n.op, p, ','.join(show(a, d - 1) for a in n.args))


# ---------------------------------------------------------------- floats
def fkey(v):
    return (v, math.copysign(1.0, v)) if v == v else ('nan', 1.0)


def fc(v):
    v = float(v)
    return mk('fc', (), fkey(v))


def cval(n):
    v = n.p[0]
    return NAN if v == 'nan' else v if v != 0 else math.copysign(0.0, n.p[1])


def fs(name, lo=-INF, hi=INF, nan=True):
    n = mk('fs', (), name)
    SYMR[n] = (float(lo), float(hi), nan)
    return n


def fdivide(a, b):
    if a != a or b != b:
        return NAN
    if b == 0:
        if a == 0:
            return NAN
        return math.copysign(INF, a) * math.copysign(1.0, b)
    try:
        return a / b
    except OverflowError:
        return math.copysign(INF, a) * math.copysign(1.0, b)


def frem_c(a, b):
    if a != a or b != b or math.isinf(a) or b == 0:
        return NAN
    return math.fmod(a, b)


def ffloor_c(a):
    return a if a != a or math.isinf(a) or abs(a) >= 2**53 else math.copysign(float(math.floor(a)), a) if math.floor(a) == 0 else float(math.floor(a))


def fceil_c(a):
    return a if a != a or math.isinf(a) or abs(a) >= 2**53 else math.copysign(float(math.ceil(a)), a) if math.ceil(a) == 0 else float(math.ceil(a))


def ftrunc_c(a):
    return a if a != a or math.isinf(a) or abs(a) >= 2**53 else math.copysign(float(math.trunc(a)), a)


def fround_c(a):
    # half away from zero
    if a != a or math.isinf(a) or abs(a) >= 2**52:
        return a
    t = math.trunc(a)
    if abs(a - t) >= 0.5:
        t += 1 if a > 0 else -1
    return math.copysign(float(abs(t)), a)


def _add(a, b):
    try:
        return a + b
    except OverflowError:
        return NAN


FOLD2 = {'fadd': lambda a, b: a + b, 'fsub': lambda a, b: a - b, 'fmul': lambda a, b: a * b, 'fdiv': fdivide, 'frem': frem_c}
FOLD1 = {'fneg': lambda a: -a, 'fabs': abs, 'fsqrt': lambda a: NAN if not a >= 0 else math.sqrt(a), 'ffloor': ffloor_c,
         'fceil': fceil_c, 'fround': fround_c, 'ftrunc': ftrunc_c}


def f1(op, a):
    if a.op == 'fc' and op in FOLD1:
        return fc(FOLD1[op](cval(a)))
    if op == 'fneg' and a.op == 'fneg':
        return a.args[0]
    return mk(op, (a,))


def f2(op, a, b):
    if a.op == 'fc' and b.op == 'fc' and op in FOLD2:
        return fc(FOLD2[op](cval(a), cval(b)))
    return mk(op, (a, b))


def fite(c, a, b):
    if c.op == 'bc':
        return a if c.p else b
    if a is b:
        return a
    if c.op == 'not':
        return fite(c.args[0], b, a)
    return mk('fite', (c, a, b))


# ---------------------------------------------------------------- integers
def ic(v):
    return mk('ic', (), int(v))


def isym(name, lo, hi):
    n = mk('is', (), name)
    SYMR[n] = (lo, hi)
    return n


def linof(n):
    if n.op == 'ic':
        return n.p, {}
    if n.op == 'lin':
        c, ks = n.p
        return c, dict(zip(n.args, ks))
    return 0, {n: 1}


def mklin(c, d):
    items = sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].id)
    if not items:
        return ic(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk('lin', tuple(a for a, _ in items), (c, tuple(k for _, k in items)))


def iadd(a, b, s=1):
    ca, da = linof(a)
    cb, db = linof(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + s * v
    return mklin(ca + s * cb, d)


def isub(a, b):
    return iadd(a, b, -1)


def iscale(a, k):
    c, d = linof(a)
    return mklin(c * k, {x: v * k for x, v in d.items()})


def ineg(a):
    return iscale(a, -1)


def imul(a, b):
    if a.op == 'ic':
        return iscale(b, a.p)
    if b.op == 'ic':
        return iscale(a, b.p)
    if a.op == 'iite' and a.args[1].op == 'ic' and a.args[2].op == 'ic':
        return iite(a.args[0], imul(a.args[1], b), imul(a.args[2], b))
    if b.op == 'iite' and b.args[1].op == 'ic' and b.args[2].op == 'ic':
        return imul(b, a)
    if a.id > b.id:
        a, b = b, a
    return mk('imul', (a, b))


def iite(c, a, b):
    if c.op == 'bc':
        return a if c.p else b
    if a is b:
        return a
    if c.op == 'not':
        return iite(c.args[0], b, a)
    return mk('iite', (c, a, b))


def ifloordiv(a, c, ctx):
    """floor(a / c) for a constant c > 0"""
    if a.op == 'ic':
        return ic(a.p // c)
    if c == 1:
        return a
    k0, d = linof(a)
    q, r = {}, {}
    for x, k in d.items():
        rk = k % c
        if rk * 2 > c:
            rk -= c
        r[x] = rk
        q[x] = (k - rk) // c
    cr = k0 % c
    cq = (k0 - cr) // c
    R = mklin(cr, r)
    if R.op == 'ic':
        return mklin(cq, q)
    lo, hi = ctx.iv(R)
    if lo // c == hi // c:
        return mklin(cq + lo // c, q)
    if R.op == 'iite' and len(d) == 1:
        pass
    # strip a common factor: floor((g*X + e)/ (g*c')) = floor((X + floor(e/g))/c')
    g = c
    cR, dR = linof(R)
    for k in dR.values():
        g = math.gcd(g, k)
    if g > 1:
        return iadd(mklin(cq, q), ifloordiv(mklin(cR // g, {x: k // g for x, k in dR.items()}), c // g, ctx))
    if R.op == 'idv':
        return iadd(mklin(cq, q), ifloordiv(R.args[0], R.p * c, ctx))
    return iadd(mklin(cq, q), mk('idv', (R,), c))


def itruncdiv(a, c, ctx):
    """a / c of the machine (towards zero) for a constant c != 0"""
    if c < 0:
        return ineg(itruncdiv(a, -c, ctx))
    lo, hi = ctx.iv(a)
    if lo >= 0:
        return ifloordiv(a, c, ctx)
    if hi <= 0:
        return ineg(ifloordiv(ineg(a), c, ctx))
    k0, d = linof(a)
    if k0 % c == 0 and all(k % c == 0 for k in d.values()):
        return mklin(k0 // c, {x: k // c for x, k in d.items()})
    n = ilt(a, ic(0))
    return iite(n, ineg(ifloordiv(ineg(a), c, ctx)), ifloordiv(a, c, ctx))


def itruncmod(a, c, ctx):
    lo, hi = ctx.iv(a)
    ac = abs(c)
    if lo < 0 < hi:
        k0, d = linof(a)
        if k0 % ac == 0 and all(k % ac == 0 for k in d.values()):
            return ic(0)
        n = ilt(a, ic(0))
        na = ineg(a)
        return iite(n, ineg(isub(na, iscale(ifloordiv(na, ac, ctx), ac))), isub(a, iscale(ifloordiv(a, ac, ctx), ac)))
    return isub(a, iscale(itruncdiv(a, ac, ctx), ac))


# ---------------------------------------------------------------- booleans
TRUE = mk('bc', (), True)
FALSE = mk('bc', (), False)


def bc(v):
    return mk('bc', (), bool(v))


def bs(name):
    return mk('bs', (), name)


def bnot(a):
    if a.op == 'bc':
        return bc(not a.p)
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,))


def bite(c, a, b):
    if c.op == 'bc':
        return a if c.p else b
    if a is b:
        return a
    if c.op == 'not':
        return bite(c.args[0], b, a)
    if a.op == 'bc' and b.op == 'bc':
        return c if a.p else bnot(c)
    if a is c:
        a = bc(True)
    elif b is c:
        b = bc(False)
    if a.op == 'bc' and b.op == 'bc':
        return c if a.p else bnot(c)
    return mk('bite', (c, a, b))


def band(a, b):
    return bite(a, b, bc(False))


def bor(a, b):
    return bite(a, bc(True), b)


def bxor(a, b):
    return bite(a, bnot(b), b)


def _leafconst(n, depth=0):
    """integer node that is a tree of gated constants"""
    return n.op == 'ic' or (n.op == 'iite' and depth < 400 and (n.args[1].op == 'ic' or n.args[2].op == 'ic' or True)
                            and _leafconst(n.args[1], depth + 1) and _leafconst(n.args[2], depth + 1))


def _push(n, f, memo):
    if n.op == 'iite':
        r = memo.get(n)
        if r is None:
            r = bite(n.args[0], _push(n.args[1], f, memo), _push(n.args[2], f, memo))
            memo[n] = r
        return r
    return f(n)


def _icmp(op, L):
    c, d = linof(L)
    if not d:
        return bc(c < 0 if op == 'ilt0' else c == 0)
    if len(d) == 1:
        (x, k), = d.items()
        if x.op == 'iite' and _leafconst(x):
            return _push(x, lambda l: bc((c + k * l.p < 0) if op == 'ilt0' else (c + k * l.p == 0)), {})
    g = 0
    for k in d.values():
        g = math.gcd(g, k)
    if op == 'ieq0':
        if c % g:
            return bc(False)
        first = min(d.items(), key=lambda x: x[0].id)[1]
        s = -1 if first < 0 else 1
        return mk('ieq0', (mklin(s * c // g, {x: s * k // g for x, k in d.items()}),))
    # sum + c < 0  <=>  sum <= -c-1  <=>  sum/g <= floor((-c-1)/g)
    b = (-c - 1) // g                     # H <= b  with H = sum/g
    first = min(d.items(), key=lambda x: x[0].id)[1]
    H = {x: k // g for x, k in d.items()}
    if first > 0:
        return mk('ilt0', (mklin(-b - 1, H),))      # H - b - 1 < 0
    # H <= b  <=>  not (H >= b+1)  <=>  not (-H <= -b-1) <=> not(-H + b < 0)
    return bnot(mk('ilt0', (mklin(b, {x: -k for x, k in H.items()}),)))


def ilt(a, b):
    return _icmp('ilt0', isub(a, b))


def ile(a, b):
    return bnot(ilt(b, a))


def ieq(a, b):
    return _icmp('ieq0', isub(a, b))


def flt(a, b):
    if a.op == 'fc' and b.op == 'fc':
        return bc(cval(a) < cval(b))
    if a is b:
        return bc(False)
    return mk('flt', (a, b))


def fle(a, b):
    if a.op == 'fc' and b.op == 'fc':
        return bc(cval(a) <= cval(b))
    return mk('fle', (a, b))


def feq(a, b):
    if a.op == 'fc' and b.op == 'fc':
        return bc(cval(a) == cval(b))
    if a.id > b.id:
        a, b = b, a
    return mk('feq', (a, b))


def i2f(n):
    if n.op == 'ic':
        try:
            return fc(float(n.p))
        except OverflowError:
            return fc(INF)
    return mk('i2f', (n,))


def ite(c, a, b):
    k = a.kind
    if k == 'f':
        return fite(c, a, b)
    if k == 'i':
        return iite(c, a, b)
    return bite(c, a, b)


# ---------------------------------------------------------------- float intervals (lo, hi, nan)
TOP = (-INF, INF, True)
FIN = (-FMAX, FMAX, False)
EMPTY = (INF, -INF, False)


def nxt(x):
    return math.nextafter(x, INF)


def prv(x):
    return math.nextafter(x, -INF)


def widen_ulps(iv, n=4):
    lo, hi, nan = iv
    for _ in range(n):
        if lo > -INF and lo == lo:
            lo = prv(lo)
        if hi < INF:
            hi = nxt(hi)
    return (lo, hi, nan)


def jn(a, b):
    return (min(a[0], b[0]), max(a[1], b[1]), a[2] or b[2])


def iv_add(a, b):
    nan = a[2] or b[2]
    if a[0] > a[1] or b[0] > b[1]:
        return (INF, -INF, nan)
    if (a[1] == INF and b[0] == -INF) or (a[0] == -INF and b[1] == INF):
        nan = True
    lo = a[0] + b[0]
    hi = a[1] + b[1]
    if lo != lo:
        lo = -INF
    if hi != hi:
        hi = INF
    return (lo, hi, nan)


def iv_neg(a):
    return (-a[1], -a[0], a[2])


def _m(x, y):
    if x == 0 or y == 0:
        return 0.0
    return x * y


def iv_mul(a, b):
    nan = a[2] or b[2]
    if a[0] > a[1] or b[0] > b[1]:
        return (INF, -INF, nan)
    a0 = a[0] <= 0 <= a[1]
    b0 = b[0] <= 0 <= b[1]
    if (a0 and (b[0] == -INF or b[1] == INF)) or (b0 and (a[0] == -INF or a[1] == INF)):
        nan = True
    p = (_m(a[0], b[0]), _m(a[0], b[1]), _m(a[1], b[0]), _m(a[1], b[1]))
    return (min(p), max(p), nan)


def iv_sq(a):
    nan = a[2]
    if a[0] > a[1]:
        return a
    hi = max(a[0] * a[0], a[1] * a[1])
    lo = 0.0 if a[0] <= 0 <= a[1] else min(a[0] * a[0], a[1] * a[1])
    return (lo, hi, nan)


def iv_div(a, b):
    nan = a[2] or b[2]
    if a[0] > a[1] or b[0] > b[1]:
        return (INF, -INF, nan)
    ainf = a[0] == -INF or a[1] == INF
    binf = b[0] == -INF or b[1] == INF
    if ainf and binf:
        nan = True
    if b[0] <= 0 <= b[1]:
        if a[0] <= 0 <= a[1]:
            nan = True
        return (-INF, INF, nan)

    def q(x, y):
        if math.isinf(y):
            return 0.0
        return fdivide(x, y)
    p = (q(a[0], b[0]), q(a[0], b[1]), q(a[1], b[0]), q(a[1], b[1]))
    return (min(p), max(p), nan)


def iv_frem(a, b):
    nan = a[2] or b[2]
    if a[0] > a[1] or b[0] > b[1]:
        return (INF, -INF, nan)
    if a[0] == -INF or a[1] == INF or b[0] <= 0 <= b[1]:
        nan = True
    m = max(abs(b[0]), abs(b[1]))
    bm = min(abs(b[0]), abs(b[1]))
    if not (b[0] <= 0 <= b[1]) and max(abs(a[0]), abs(a[1])) < bm:
        return (a[0], a[1], nan)
    lim = prv(m) if m < INF else FMAX
    if b[0] == b[1] and not nan and not math.isinf(a[0]) and not math.isinf(a[1]):
        # within one period the remainder is the argument less a constant
        x, y = frem_c(a[0], b[0]), frem_c(a[1], b[0])
        if (x <= 0 and a[1] <= 0 or y >= 0 and a[0] >= 0) and Fraction(y) - Fraction(x) == Fraction(a[1]) - Fraction(a[0]):
            return (x, y, nan)
    lo = -min(lim, -a[0]) if a[0] < 0 else 0.0
    hi = min(lim, a[1]) if a[1] > 0 else 0.0
    return (lo, hi, nan)


def iv_mono(f, a, ulps=0):
    if a[0] > a[1]:
        return a
    r = (f(a[0]), f(a[1]), a[2])
    return widen_ulps(r, ulps) if ulps else r


def iv_sqrt(a):
    nan = a[2]
    if a[0] > a[1]:
        return a
    if a[0] < 0:
        nan = True
    if a[1] < 0:
        return (INF, -INF, True)
    return (math.sqrt(max(a[0], 0.0)), math.sqrt(a[1]), nan)


def iv_abs(a):
    if a[0] > a[1]:
        return a
    lo = 0.0 if a[0] <= 0 <= a[1] else min(abs(a[0]), abs(a[1]))
    return (lo, max(abs(a[0]), abs(a[1])), a[2])


def iv_cos(a):
    nan = a[2]
    if a[0] > a[1]:
        return a
    if a[0] == -INF or a[1] == INF:
        return (-1.0, 1.0, True)
    w = a[1] - a[0]
    if w >= 6.283 or max(abs(a[0]), abs(a[1])) > 1e6:
        return (-1.0, 1.0, nan)
    lo = min(math.cos(a[0]), math.cos(a[1]))
    hi = max(math.cos(a[0]), math.cos(a[1]))
    e = 1e-9
    k = math.ceil((a[0] - e) / math.pi)
    while k * math.pi <= a[1] + e:
        if k % 2 == 0:
            hi = 1.0
        else:
            lo = -1.0
        k += 1
    r = widen_ulps((lo, hi, nan), 4)
    return (max(r[0], -1.0), min(r[1], 1.0), nan)


def iv_sin(a):
    if a[0] > a[1]:
        return a
    if a[0] == -INF or a[1] == INF:
        return (-1.0, 1.0, True)
    if max(abs(a[0]), abs(a[1])) <= 1.57:
        r = widen_ulps((math.sin(a[0]), math.sin(a[1]), a[2]), 4)
        return (max(r[0], -1.0), min(r[1], 1.0), a[2])
    # sin x = cos(x - pi/2); the shift error is covered by the widening of the argument
    s = (a[0] - math.pi / 2, a[1] - math.pi / 2, a[2])
    s = (s[0] - 1e-12 * (1 + abs(s[0])), s[1] + 1e-12 * (1 + abs(s[1])), a[2])
    return iv_cos(s)


PI = math.pi


def iv_atan(a):
    if a[0] > a[1]:
        return a
    r = widen_ulps((math.atan(a[0]), math.atan(a[1]), a[2]), 4)
    h = nxt(PI / 2)
    return (max(r[0], -h), min(r[1], h), a[2])


def iv_acos(a):
    if a[0] > a[1]:
        return a
    nan = a[2] or a[0] < -1 or a[1] > 1
    if a[0] > 1 or a[1] < -1:
        return (INF, -INF, True)
    r = widen_ulps((math.acos(min(a[1], 1.0)), math.acos(max(a[0], -1.0)), nan), 4)
    return (max(0.0, r[0]), min(PI, r[1]), nan)


def iv_asin(a):
    if a[0] > a[1]:
        return a
    nan = a[2] or a[0] < -1 or a[1] > 1
    if a[0] > 1 or a[1] < -1:
        return (INF, -INF, True)
    r = widen_ulps((math.asin(max(a[0], -1.0)), math.asin(min(a[1], 1.0)), nan), 4)
    return (max(r[0], -PI / 2), min(r[1], PI / 2), nan)


def iv_atan2(y, x):
    nan = y[2] or x[2]
    if y[0] > y[1] or x[0] > x[1]:
        return (INF, -INF, nan)
    if x[0] > 0 and not (math.isinf(x[1]) and math.isinf(max(abs(y[0]), abs(y[1])))):
        c = [math.atan2(a, b) for a in y[:2] for b in x[:2]]
        r = widen_ulps((min(c), max(c), nan), 4)
        return r
    lo, hi = -PI, PI
    if y[0] > 0:
        lo = 0.0
    elif y[0] == 0 and False:
        lo = 0.0
    if y[1] < 0:
        hi = 0.0
    return (lo, hi, nan)


def iv_exp(a):
    def e(x):
        try:
            return math.exp(x)
        except OverflowError:
            return INF
    r = iv_mono(e, a, 4)
    return (max(r[0], 0.0), r[1], r[2])


def iv_pow(a, b):
    return TOP


# ---------------------------------------------------------------- contexts
class Ctx:
    __slots__ = ('parent', 'facts', 'truths', 'memo', 'dmemo', 'aff', 'own', 'bottom', 'depth', 'kids')

    def __init__(self, parent=None):
        self.parent = parent
        self.facts = parent.facts.copy() if parent else {}
        self.truths = parent.truths.copy() if parent else {}
        self.memo = {}
        self.dmemo = {}
        self.aff = {}
        self.own = set()
        self.bottom = False
        self.depth = parent.depth + 1 if parent else 0
        self.kids = {}

    # -- knowledge
    def affected(self, n):
        r = self.aff.get(n)
        if r is None:
            if n in self.own:
                r = True
            else:
                r = False
                for a in n.args:
                    if self.affected(a):
                        r = True
                        break
                if not r and n.op == 'lin' and n.p[0] != 0:
                    r = self.affected(_hom(n))
            self.aff[n] = r
        return r

    def iv(self, n):
        r = self.memo.get(n)
        if r is not None:
            return r
        if self.parent is not None and not self.affected(n):
            r = self.parent.iv(n)
        else:
            r = self._compute(n)
            f = self.facts.get(n)
            if f is not None:
                r = meet(r, f, n.kind)
        self.memo[n] = r
        return r

    def _compute(self, n):
        k = n.kind
        if k == 'f':
            return self._fcomp(n)
        if k == 'i':
            return self._icomp(n)
        d = self.decide(n)
        return (0, 1) if d is None else (1, 1) if d else (0, 0)

    def _ite(self, n, join):
        c, a, b = n.args
        d = self.decide(c)
        if d is True:
            return self.iv(a)
        if d is False:
            return self.iv(b)
        # a gate is evaluated under its own condition, within a bound on the nesting and on the work
        if _gd.d > 48 or _gd.n > 1500:
            return join(self.iv(a), self.iv(b))
        if _gd.d == 0:
            _gd.n = 0
        _gd.n += 1
        _gd.d += 1
        try:
            ca = self.assume(c, True)
            cb = self.assume(c, False)
            if ca is None and cb is None:
                return self.iv(a)
            if ca is None:
                return cb.iv(b)
            if cb is None:
                return ca.iv(a)
            return join(ca.iv(a), cb.iv(b))
        finally:
            _gd.d -= 1
            if _gd.d == 0:
                _gd.n = 0

    def _fcomp(self, n):
        op = n.op
        iv = self.iv
        if op == 'fc':
            v = cval(n)
            return (INF, -INF, True) if v != v else (v, v, False)
        if op == 'fopq' and n.p == 'f32' and n not in SYMR:
            lo, hi, nan = iv(n.args[0])
            e = 6e-8
            return (lo - abs(lo) * e - 1e-45, hi + abs(hi) * e + 1e-45, nan) if -1e38 < lo and hi < 1e38 else (-INF, INF, nan)
        if op == 'fs' or op == 'fopq' or op == 'ffun':
            return SYMR.get(n, TOP)
        if op == 'fite':
            return self._ite(n, jn)
        a = n.args[0]
        if op == 'i2f':
            lo, hi = iv(a)
            try:
                return (float(lo), float(hi), False)
            except OverflowError:
                return TOP
        A = iv(a)
        if op == 'fneg':
            return iv_neg(A)
        if op == 'fabs':
            return iv_abs(A)
        if op == 'fsqrt':
            return iv_sqrt(A)
        if op == 'fsin':
            return iv_sin(A)
        if op == 'fcos':
            return iv_cos(A)
        if op == 'ftan':
            if A[0] > -1.57 and A[1] < 1.57:
                return iv_mono(math.tan, A, 4)
            return (-INF, INF, A[2] or A[0] == -INF or A[1] == INF)
        if op == 'fatan':
            return iv_atan(A)
        if op == 'facos':
            return iv_acos(A)
        if op == 'fasin':
            return iv_asin(A)
        if op == 'ffloor':
            return iv_mono(ffloor_c, A)
        if op == 'fceil':
            return iv_mono(fceil_c, A)
        if op == 'fround' or op == 'froundeven':
            r = iv_mono(fround_c, A)
            if op == 'froundeven':
                r = (ffloor_c(A[0]), fceil_c(A[1]), A[2])
            return r
        if op == 'ftrunc':
            return iv_mono(ftrunc_c, A)
        if op == 'fexp':
            return iv_exp(A)
        if op == 'fln':
            if A[0] > 0:
                return iv_mono(lambda x: math.log(x) if x < INF else INF, A, 4)
            return TOP
        if len(n.args) == 1:
            return TOP
        b = n.args[1]
        B = iv(b)
        if op == 'fadd':
            r = iv_add(A, B)
            if r[0] <= 0 and not r[2]:
                k = self._pyth(a, b)
                if k is not None:
                    # k1 cos^2 x + k2 sin^2 x >= min(k1, k2), a few roundings below
                    r = (max(r[0], k * (1.0 - 1e-12)), r[1], r[2])
            return r
        if op == 'fsub':
            if a is b:
                return (0.0, 0.0, A[2] or A[0] == -INF or A[1] == INF)
            if b.op == 'ftrunc' and b.args[0] is a:      # fractional part
                nan = A[2] or A[0] == -INF or A[1] == INF
                lo = 0.0 if A[0] >= 0 else -prv(1.0)
                hi = 0.0 if A[1] <= 0 else prv(1.0)
                return (lo, hi, nan)
            if b.op == 'ffloor' and b.args[0] is a:
                return (0.0, 1.0, A[2] or A[0] == -INF or A[1] == INF)
            if b.op == 'frem' and b.args[0] is a and False:
                pass
            return iv_add(A, iv_neg(B))
        if op == 'fmul':
            if a is b:
                return iv_sq(A)
            return iv_mul(A, B)
        if op == 'fdiv':
            if a is b and not (A[0] <= 0 <= A[1]) and A[0] > -INF and A[1] < INF:
                return (1.0, 1.0, A[2])
            return iv_div(A, B)
        if op == 'frem':
            return iv_frem(A, B)
        if op == 'fatan2':
            return iv_atan2(A, B)
        if op == 'ffma':
            C = iv(n.args[2])
            # one rounding instead of two: both bounds are covered by the monotone two-step ends up to 1 ulp
            return widen_ulps(iv_add(iv_mul(A, B), C), 2)
        if op == 'fmin':
            # Rust: NaN only if both are NaN; returns the other otherwise
            lo = min(A[0], B[0])
            hi = min(A[1], B[1])
            if A[2]:
                hi = max(hi, B[1])
            if B[2]:
                hi = max(hi, A[1])
            return (lo, hi, A[2] and B[2])
        if op == 'fmax':
            hi = max(A[1], B[1])
            lo = max(A[0], B[0])
            if A[2]:
                lo = min(lo, B[0])
            if B[2]:
                lo = min(lo, A[0])
            return (lo, hi, A[2] and B[2])
        if op == 'fcopysign':
            m = iv_abs(A)
            if B[0] > 0:
                return (m[0], m[1], m[2])
            if B[1] < 0:
                return (-m[1], -m[0], m[2])
            return (-m[1], m[1], m[2])
        return TOP

    def _pyth(self, a, b):
        """min(k1, k2) if a, b are k1 cos^2 x and k2 sin^2 x with positive constants, else None"""
        def fac(n, l, d=0):
            if n.op == 'fmul' and d < 6:
                fac(n.args[0], l, d + 1)
                fac(n.args[1], l, d + 1)
            else:
                l.append(n)
            return l
        res = {}
        for n in (a, b):
            k, trig = 1.0, []
            for x in fac(n, []):
                if x.op in ('fsin', 'fcos'):
                    trig.append(x)
                else:
                    lo = self.iv(x)[0]
                    if self.iv(x)[2] or lo <= 0:
                        return None
                    k *= lo
            if len(trig) != 2 or trig[0] is not trig[1]:
                return None
            res[trig[0].op] = (trig[0].args[0], k)
        if len(res) == 2 and res['fsin'][0] is res['fcos'][0] and not self.iv(res['fsin'][0])[2]:
            return min(res['fsin'][1], res['fcos'][1])
        return None

    def _icomp(self, n):
        op = n.op
        if op == 'ic':
            return (n.p, n.p)
        if op in ('is', 'iopq'):
            return SYMR[n]
        if op == 'lin':
            c, ks = n.p
            lo = hi = 0
            for a, k in zip(n.args, ks):
                l, h = self.iv(a)
                if k > 0:
                    lo += k * l
                    hi += k * h
                else:
                    lo += k * h
                    hi += k * l
            if c != 0:
                H = _hom(n)
                f = self.facts.get(H)
                if f is not None:
                    lo = max(lo, f[0])
                    hi = min(hi, f[1])
            if any(a.op == 'idv' for a in n.args):
                l2, h2 = self._dividv(n)
                lo = max(lo, l2 - c)
                hi = min(hi, h2 - c)
            return (lo + c, hi + c)
        if op == 'idv':
            l, h = self.iv(n.args[0])
            return (l // n.p, h // n.p)
        if op == 'iite':
            return self._ite(n, lambda a, b: (min(a[0], b[0]), max(a[1], b[1])))
        if op == 'imul':
            a, b = self.iv(n.args[0]), self.iv(n.args[1])
            p = [x * y for x in a for y in b]
            if n.args[0] is n.args[1]:
                return (0 if a[0] <= 0 <= a[1] else min(p), max(p))
            return (min(p), max(p))
        if op == 'f2i':
            lo, hi = n.p
            A = self.iv(n.args[0])
            l = lo if A[0] == -INF else hi if A[0] == INF else int(A[0])
            h = hi if A[1] == INF else lo if A[1] == -INF else int(A[1])
            l = min(max(l, lo), hi)
            h = min(max(h, lo), hi)
            if A[0] > A[1]:
                l, h = 0, 0
            if A[2]:
                l, h = min(l, 0), max(h, 0)
            return (l, h)
        if op == 'itd':
            a, b = self.iv(n.args[0]), self.iv(n.args[1])
            m = max(abs(a[0]), abs(a[1]))
            if a[0] >= 0 and b[0] > 0:
                return (a[0] // b[1], a[1] // b[0])
            return (-m, m)
        if op == 'itm':
            a, b = self.iv(n.args[0]), self.iv(n.args[1])
            m = max(max(abs(b[0]), abs(b[1])) - 1, 0)
            return (-m if a[0] < 0 else 0, m if a[1] > 0 else 0)
        if op in ('iwrap', 'ibit'):
            return n.p[-2:]
        raise Exception('iv ' + op)

    def _dividv(self, n, depth=0):
        """interval of a linear form using c*floor(R/c) = R - (R mod c)"""
        best = (-10**40, 10**40)
        c, d = linof(n)
        for x, k in d.items():
            if x.op != 'idv':
                continue
            C = x.p
            g = math.gcd(abs(k), C)
            if g == 1:
                continue
            # g*x = floor(R/(C/g)) - M,  M in [0, g-1]
            R = x.args[0]
            inner = R if g == C else _rawidv(R, C // g)
            m = k // g
            d2 = dict(d)
            del d2[x]
            L2 = iadd(mklin(c, d2), iscale(inner, m))
            if depth < 4 and any(a.op == 'idv' for a in (L2.args if L2.op == 'lin' else ())):
                lo, hi = self._plain(L2)
                l3, h3 = self._dividv(L2, depth + 1)
                lo, hi = max(lo, l3), min(hi, h3)
            else:
                lo, hi = self.iv(L2) if depth == 0 or L2.op != 'lin' else self._plain(L2)
            if m > 0:
                lo -= m * (g - 1)
            else:
                hi -= m * (g - 1)
            best = (max(best[0], lo), min(best[1], hi))
        return best

    def _plain(self, n):
        c, d = linof(n)
        lo = hi = c
        for a, k in d.items():
            l, h = self.iv(a)
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        if d:
            f = self.facts.get(mklin(0, d))
            if f is not None:
                lo, hi = max(lo, f[0] + c), min(hi, f[1] + c)
        return (lo, hi)

    # -- deciding conditions
    def decide(self, c):
        op = c.op
        if op == 'bc':
            return c.p
        if op == 'not':
            d = self.decide(c.args[0])
            return None if d is None else not d
        t = self.truths.get(c)
        if t is not None:
            return t
        if c in self.dmemo:
            return self.dmemo[c]
        if self.parent is not None and not self.affected(c):
            r = self.parent.decide(c)
        else:
            r = self._decide(c)
        self.dmemo[c] = r
        return r

    def _decide(self, c):
        op = c.op
        if op == 'bite':
            x, a, b = c.args
            d = self.decide(x)
            if d is True:
                return self.decide(a)
            if d is False:
                return self.decide(b)
            # each arm is decided under its own gate, within a bound on the nesting and on the work
            if _gd.d <= 48 and _gd.n <= 1500:
                if _gd.d == 0:
                    _gd.n = 0
                _gd.n += 1
                _gd.d += 1
                try:
                    if a.op == 'bc':
                        da = a.p
                    else:
                        cx = self.assume(x, True)
                        if cx is None:
                            return self.decide(b)
                        da = cx.decide(a)
                    if da is None:
                        return None
                    if b.op == 'bc':
                        db = b.p
                    else:
                        cx = self.assume(x, False)
                        if cx is None:
                            return da
                        db = cx.decide(b)
                finally:
                    _gd.d -= 1
                    if _gd.d == 0:
                        _gd.n = 0
            else:
                da = self.decide(a)
                db = None if da is None else self.decide(b)
            return da if da == db else None
        if op == 'ilt0':
            lo, hi = self.iv(c.args[0])
            if hi < 0:
                return True
            if lo >= 0:
                return False
            return None
        if op == 'ieq0':
            lo, hi = self.iv(c.args[0])
            if lo > 0 or hi < 0:
                return False
            if lo == hi == 0:
                return True
            return None
        if op in ('flt', 'fle', 'feq'):
            a, b = c.args
            A, B = self.iv(a), self.iv(b)
            ea, eb = A[0] > A[1], B[0] > B[1]
            if ea or eb:
                return False              # only NaN possible
            nan = A[2] or B[2]
            if op == 'flt':
                if A[0] >= B[1]:
                    return False
                if not nan and A[1] < B[0]:
                    return True
                t = self.truths.get(mk('fle', (b, a)))
                if t is True:
                    return False
                t = self.truths.get(mk('flt', (b, a)))
                if t is True:
                    return False
                if t is False and not nan and self.truths.get(feq(a, b)) is False:
                    return True
                if self.truths.get(mk('fle', (b, a))) is False and not nan:
                    return True
            elif op == 'fle':
                if A[0] > B[1]:
                    return False
                if not nan and A[1] <= B[0]:
                    return True
                if a is b and not nan:
                    return True
                if self.truths.get(mk('flt', (a, b))) is True:
                    return True
                t = self.truths.get(mk('flt', (b, a)))
                if t is True:
                    return False
                if t is False and not nan:
                    return True
            else:
                if A[0] > B[1] or B[0] > A[1]:
                    return False
                if a is b and not nan:
                    return True
                if not nan and A[0] == A[1] == B[0] == B[1]:
                    return True
                for x, y in ((a, b), (b, a)):
                    if self.truths.get(mk('flt', (x, y))) is True:
                        return False
            return None
        return None

    # -- assuming conditions
    def assume(self, c, val):
        key = (c, val)
        if key in self.kids:
            return self.kids[key]
        d = self.decide(c)
        if d is not None:
            r = self if d == val else None
        else:
            r = Ctx(self)
            r._learn(c, val)
            if r.bottom:
                r = None
        self.kids[key] = r
        return r

    def _invalidate(self):
        self.memo = {}
        self.dmemo = {}
        self.aff = {}
        self.kids = {}

    def _learn(self, c, val):
        if self.bottom:
            return
        op = c.op
        if op == 'not':
            return self._learn(c.args[0], not val)
        d = self.decide(c)
        if d is not None:
            if d != val:
                self.bottom = True
            return
        self.truths[c] = val
        self.own.add(c)
        self._invalidate()
        if op == 'bite':
            x, a, b = c.args
            da, db = self.decide(a), self.decide(b)
            if da is not None and da != val:
                self._learn(x, False)
                self._learn(b, val)
            elif db is not None and db != val:
                self._learn(x, True)
                self._learn(a, val)
            return
        if op == 'ilt0':
            L = c.args[0]
            self.refine(L, (-10**40, -1) if val else (0, 10**40))
        elif op == 'ieq0':
            L = c.args[0]
            if val:
                self.refine(L, (0, 0))
            else:
                lo, hi = self.iv(L)
                if lo == 0:
                    self.refine(L, (1, hi))
                elif hi == 0:
                    self.refine(L, (lo, -1))
        elif op in ('flt', 'fle', 'feq'):
            a, b = c.args
            A, B = self.iv(a), self.iv(b)
            if op == 'feq':
                if val:
                    m = (max(A[0], B[0]), min(A[1], B[1]), False)
                    self.refine(a, m)
                    self.refine(b, m)
                else:
                    # x != k at an end of the interval
                    for x, X, Y in ((a, A, B), (b, B, A)):
                        if Y[0] == Y[1] and not Y[2]:
                            lo, hi = X[0], X[1]
                            if lo == Y[0]:
                                lo = nxt(lo)
                            if hi == Y[0]:
                                hi = prv(hi)
                            self.refine(x, (lo, hi, X[2]))
                return
            strict = op == 'flt'
            if val:
                self.refine(a, (-INF, prv(B[1]) if strict and B[1] > -INF else B[1], False))
                self.refine(b, (nxt(A[0]) if strict and A[0] < INF else A[0], INF, False))
            else:
                # a < b false: a >= b, or one of them is NaN
                if not B[2] or A[0] > A[1]:
                    if not B[2]:
                        lo = B[0] if strict else nxt(B[0])
                        self.refine(a, (lo, INF, True))
                if not A[2]:
                    hi = A[1] if strict else prv(A[1])
                    self.refine(b, (-INF, hi, True))

    def refine(self, n, iv, depth=0):
        if self.bottom:
            return
        cur = self.iv(n)
        new = meet(cur, iv, n.kind)
        if new == cur:
            return
        if n.kind == 'i':
            if new[0] > new[1]:
                self.bottom = True
                return
        else:
            if new[0] > new[1] and not new[2]:
                self.bottom = True
                return
        key, kv = n, new
        if n.op == 'lin' and n.p[0] != 0:
            c = n.p[0]
            key = _hom(n)
            kv = (new[0] - c, new[1] - c)
            old = self.facts.get(key)
            if old is not None:
                kv = (max(kv[0], old[0]), min(kv[1], old[1]))
        else:
            old = self.facts.get(key)
            if old is not None:
                kv = meet(kv, old, n.kind)
        self.facts[key] = kv
        self.own.add(key)
        self._invalidate()
        if depth > 8:
            return
        if n.kind == 'i':
            if n.op == 'lin':
                c, ks = n.p
                ivs = [self.iv(a) for a in n.args]
                tot_lo = sum(k * (l if k > 0 else h) for (l, h), k in zip(ivs, ks))
                tot_hi = sum(k * (h if k > 0 else l) for (l, h), k in zip(ivs, ks))
                for (a, k, (l, h)) in zip(n.args, ks, ivs):
                    rl = tot_lo - k * (l if k > 0 else h)
                    rh = tot_hi - k * (h if k > 0 else l)
                    # k*a in [new.lo - c - rh, new.hi - c - rl]
                    x, y = new[0] - c - rh, new[1] - c - rl
                    if k > 0:
                        nl, nh = -((-x) // k), y // k
                    else:
                        nl, nh = _cdiv(y, k), _fdivi(x, k)
                    self.refine(a, (nl, nh), depth + 1)
                    if self.bottom:
                        return
            elif n.op == 'idv':
                self.refine(n.args[0], (new[0] * n.p, new[1] * n.p + n.p - 1), depth + 1)
            elif n.op == 'iite':
                self._refite(n, new, depth)
        else:
            op = n.op
            lo, hi, nan = new
            if op == 'fneg':
                self.refine(n.args[0], (-hi, -lo, nan), depth + 1)
            elif op == 'fcopysign' and not nan:
                # a copied sign tells the sign of its source, unless the magnitude is zero
                m = self.iv(n.args[0])
                if not m[2] and (m[0] > 0 or m[1] < 0) and (lo >= 0 or hi <= 0):
                    x = self.iv(n.args[1])
                    self.refine(n.args[1], (0.0, INF, x[2]) if lo >= 0 else (-INF, 0.0, x[2]), depth + 1)
            elif op == 'fabs' and not nan:
                self.refine(n.args[0], (-hi, hi, False), depth + 1)
            elif op == 'fsqrt' and not nan:
                s = hi * hi if hi < 1e154 else INF
                l = max(lo, 0.0)
                l2 = 0.0 if l < 1e-150 else prv(prv(l * l))
                self.refine(n.args[0], (-0.0 if l == 0 else l2, nxt(nxt(s)) if s < INF else INF, False), depth + 1)
            elif op in ('fadd', 'fsub') and not nan:
                a, b = n.args
                A, B = self.iv(a), self.iv(b)
                if op == 'fsub':
                    B = iv_neg(B)
                # a = n - b, outwards by the rounding of n: |n| * 2^-53 and a denormal
                def bound(B):
                    l = lo - B[1]
                    h = hi - B[0]
                    if l != l:
                        l = -INF
                    if h != h:
                        h = INF
                    e1 = abs(lo) * 3e-16 + 1e-300 if lo > -INF else 0
                    e2 = abs(hi) * 3e-16 + 1e-300 if hi < INF else 0
                    l = l - e1 if l > -INF else l
                    h = h + e2 if h < INF else h
                    return (prv(prv(l)) if l > -INF else l, nxt(nxt(h)) if h < INF else h, False)
                # exact only if no overflow to inf: inf bounds stay inf
                self.refine(a, bound(B), depth + 1)
                nb = bound(A)
                if op == 'fsub':
                    nb = (-nb[1], -nb[0], nb[2])
                self.refine(b, nb, depth + 1)
            elif op == 'fite':
                self._refite(n, new, depth)

    def _refite(self, n, new, depth):
        c, a, b = n.args
        d = self.decide(c)
        if d is True:
            return self.refine(a, new, depth + 1)
        if d is False:
            return self.refine(b, new, depth + 1)
        k = n.kind
        ia, ib = self.iv(a), self.iv(b)
        ea, eb = empty(meet(ia, new, k), k), empty(meet(ib, new, k), k)
        if ea and eb:
            self.bottom = True
        elif ea:
            self._learn(c, False)
            self.refine(b, new, depth + 1)
        elif eb:
            self._learn(c, True)
            self.refine(a, new, depth + 1)


class _GD:
    d = 0
    n = 0


_gd = _GD()


def _cdiv(a, b):
    return -((-a) // b)


def _fdivi(a, b):
    return a // b


def empty(iv, k):
    if k == 'f':
        return iv[0] > iv[1] and not iv[2]
    return iv[0] > iv[1]


def meet(a, b, k):
    if k == 'f':
        lo, hi = max(a[0], b[0]), min(a[1], b[1])
        if lo > hi:
            lo, hi = INF, -INF
        return (lo, hi, a[2] and b[2])
    return (max(a[0], b[0]), min(a[1], b[1]))


def _hom(n):
    c, ks = n.p
    return mklin(0, dict(zip(n.args, ks)))


def _rawidv(R, c):
    """floor(R/c) in the canonical form, without a context"""
    return ifloordiv(R, c, _ROOT)


class _RootCtx(Ctx):
    pass


_ROOT = Ctx()
