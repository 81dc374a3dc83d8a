"""The IAU 2000 models as polynomials over Alg: the oracle of C10, C11, C12."""
import json
import os
from chk import *  # noqa

SPEC = os.path.join(HERE, 'spec')
AS2R = D('4.848136811095359935899141E-6')


def table():
    with open(os.path.join(SPEC, 'iau2000b.json')) as f:
        return json.load(f, parse_float=D, parse_int=D)


def poly(A, cs, t):
    """sum of cs[i] t^i"""
    r = con(A, 0)
    for c in reversed(cs):
        r = r * t + D(c)
    return r


ARGS = [('485868.249036', '1717915923.2178'), ('1287104.79305', '129596581.0481'), ('335779.526232', '1739527262.8478'),
        ('1072260.70369', '1602961601.2090'), ('450160.398036', '-6962890.5431')]


def nutation(A, t):
    T = table()
    fa = [poly(A, a, t) * AS2R for a in ARGS]
    dp, de = con(A, 0), con(A, 0)
    for n, c in zip(T['nals'], T['cls']):
        a = sum_([f * D(k) for f, k in zip(fa, n)])
        s, co = a.sin(), a.cos()
        dp = dp + (con(A, c[0]) + t * c[1]) * s + co * c[2]
        de = de + (con(A, c[3]) + t * c[4]) * co + s * c[5]
    u = AS2R / D(10) ** 7
    mas = AS2R / D(1000)
    return dp * u + D('-0.135') * mas, de * u + D('0.388') * mas


def precession_rate(A, t):
    return t * (D('-0.29965') * AS2R), t * (D('-0.02524') * AS2R)


def mean_obliquity(A, t):
    return poly(A, ['84381.448', '-46.8150', '-0.00059', '0.001813'], t) * AS2R


def frame_bias(A):
    return [con(A, D(x) * AS2R) for x in ('-0.041775', '-0.0068192', '-0.0146')]


EPS0 = D('84381.448') * AS2R


def bias_precession(A, t):
    dpsi, deps, dra = frame_bias(A)
    e0 = con(A, EPS0)
    rpsi, reps = precession_rate(A, t)
    psia = poly(A, ['0', '5038.7784', '-1.07259', '-0.001147'], t) * AS2R + rpsi
    oma = e0 + poly(A, ['0', '0', '0.05127', '-0.007726'], t) * AS2R + reps
    chia = poly(A, ['0', '10.5526', '-2.38064', '-0.001125'], t) * AS2R
    rb = matmul(matmul(rot(0, -deps), rot(1, dpsi * e0.sin())), rot(2, dra))
    rp = matmul(matmul(matmul(rot(2, chia), rot(0, -oma)), rot(2, -psia)), rot(0, e0))
    return rb, rp, matmul(rp, rb)


def nutation_matrix(epsa, dpsi, deps):
    return matmul(matmul(rot(0, -(epsa + deps)), rot(2, -dpsi)), rot(0, epsa))


def pn_with(A, t, dpsi, deps):
    epsa = mean_obliquity(A, t) + precession_rate(A, t)[1]
    rb, rp, rbp = bias_precession(A, t)
    rn = nutation_matrix(epsa, dpsi, deps)
    return {'dpsi': dpsi, 'epsa': epsa, 'rb': rb, 'rp': rp, 'rbp': rbp, 'rn': rn, 'rbpn': matmul(rn, rbp)}


FUND = {'l03': ['485868.249036', '1717915923.2178', '31.8792', '0.051635', '-0.00024470'],
        'lp03': ['1287104.793048', '129596581.0481', '-0.5532', '0.000136', '-0.00001149'],
        'f03': ['335779.526232', '1739527262.8478', '-12.7512', '-0.001037', '0.00000417'],
        'd03': ['1072260.703692', '1602961601.2090', '-6.3706', '0.006593', '-0.00003169'],
        'om03': ['450160.398036', '-6962890.5431', '7.4722', '0.007702', '-0.00005939'],
        've03': ['3.176146697', '1021.3285546211'],
        'e03': ['1.753470314', '628.3075849991'],
        'pa03': ['0', '0.024381750', '0.00000538691']}
FORDER = ['l03', 'lp03', 'f03', 'd03', 'om03', 've03', 'e03', 'pa03']


def fund(A, name, t):
    p = poly(A, FUND[name], t)
    return p * AS2R if name in FORDER[:5] else p


SP = ['94e-6', '3808.35e-6', '-119.94e-6', '-72574.09e-6', '27.70e-6', '15.61e-6']


def cio(A, t, x, y):
    T = table()
    fa = [fund(A, n, t) for n in FORDER]
    s = [con(A, c) for c in SP]
    for k in range(5):
        for n, c in zip(T['ks%d' % k], T['ss%d' % k]):
            a = sum_([f * D(m) for f, m in zip(fa, n)])
            s[k] = s[k] + a.sin() * c[0] + a.cos() * c[1]
    r = con(A, 0)
    for p in reversed(s):
        r = r * t + p
    return r * AS2R - x * y / 2


def date(A, u1, u2):
    """binds a two-part date to 2451545 + 36525 t - y and y; returns t"""
    t, y = sym(A, 't'), sym(A, 'y')
    A.bind.update({u1: (t * 36525 - y + 2451545).p, u2: y.p})
    return t


def flat(m):
    return [x for row in m for x in row] if isinstance(m, list) and isinstance(m[0], list) else (m if isinstance(m, list) else [m])


def compare(c, name, A, value, want, where, **kw):
    got = [x for _, x in scalars(value)]
    want = flat(want)
    if not c.ob('%s: shape' % name, len(got) == len(want), '%d components, %d expected' % (len(got), len(want)), where):
        return
    for i, (g, w) in enumerate(zip(got, want)):
        idx = '[%d][%d]' % (i // 3, i % 3) if len(want) == 9 else ('.%d' % i if len(want) > 1 else '')
        eq(c, name + idx, A, g, w, where, **kw)
