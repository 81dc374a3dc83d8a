"""Calendar oracle and the partition of the years shared by C01, C02, C03, C05."""
from chk import *  # noqa

LO, HI = -2 ** 31, 2 ** 31 - 1
YMIN = -4799
DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def leap(r):
    return r % 4 == 0 and r % 100 != 0 or r % 400 == 0


def ndays(r, month):
    return 29 if month == 2 and leap(r) else DAYS[month - 1]


def mjd0(year, month):
    """modified Julian day number of day 0 of a month: days counted from 1858-11-17"""
    y = year - 1
    n = 365 * y + y // 4 - y // 100 + y // 400        # days before the year, from 0001-01-01
    n += sum(ndays(year, m) for m in range(1, month))
    return n - 678576


def years(split=True, lo=YMIN, hi=HI):
    """partition of the years: (title, residue mod 400, lowest quotient, highest quotient)"""
    l = []
    for r in range(400):
        for s, a, b in (('negative', lo, -1), ('non-negative', 0, hi)):
            l.append(('%s year = %d mod 400' % (s, r), r, -((r - a) // 400), (b - r) // 400))
    return l


def year(r, a, b):
    return N.iadd(N.iscale(N.isym('q', a, b), 400), N.ic(r))


def within(cx, n, lo, hi):
    """context in which the integer node is in [lo, hi], None if impossible"""
    for cond in (N.ile(N.ic(lo), n), N.ile(n, N.ic(hi))):
        d = cx.decide(cond)
        if d is None:
            cx = cx.assume(cond, True)
        elif not d:
            return None
        if cx is None:
            return None
    return cx


def datefields(p):
    ty = next(i for i, t in p.types.items() if t['k'] == 'adt' and t['name'] == 'tofas::calendar::GregorianDate')
    return ty, [n for n, _ in p.types[ty]['v'][0]['f']]


def mkdate(p, y, m, d):
    ty, names = datefields(p)
    return Agg(ty, 0, tuple({'year': y, 'month': m, 'day': d}[k] for k in names))


def fracrange(A, P, syms):
    """bounds of a polynomial made of x - floor(x) terms and of symbols of known range:
    (low, low attained, high, high attained), None if it is of another form"""
    R, lo, hi, lc, hc = dict(P), D(0), D(0), True, True
    for m, k in P.items():
        if len(m) == 1 and m[0][1] == 1 and A.atoms[m[0][0]][0] == 'floor':
            Q = A.polys[A.atoms[m[0][0]][1]]
            R = A.add({x: y for x, y in R.items() if x != m}, A.scale(Q, k))      # k floor(Q) = k Q - k frac(Q)
            if k > 0:
                lo, lc = lo - k, False
            else:
                hi, hc = hi - k, False
    for m, k in R.items():
        if not m:
            b = (1, 1)
        elif len(m) == 1 and m[0][1] == 1 and m[0][0] in syms:
            b = syms[m[0][0]]
        else:
            return None
        b = sorted((D(repr(x)) if x.__class__ is float else D(x)) * k for x in b)
        lo, hi = lo + b[0], hi + b[1]
    return lo, lc, hi, hc


def unsign(A, P, syms):
    """the indicator [Q < 0] of a Q in [-1, 1) is -floor(Q), that of Q = 0 for Q in (-1, 1) is 1 + floor(Q) + floor(-Q)"""
    for _ in range(20):
        g = None
        for m in P:
            for a, e in m:
                if A.atoms[a][0] not in ('lt', 'eq'):
                    continue
                Q = A.polys[A.atoms[a][1]]
                b = fracrange(A, Q, syms)
                if b is None or b[0] < -1 or b[2] > 1 or (b[2] == 1 and b[3]):
                    continue
                if A.atoms[a][0] == 'lt':
                    g = (a, A.scale(A.floor(Q), D(-1)))
                elif not (b[0] == -1 and b[1]):
                    g = (a, A.add(A.add({(): D(1)}, A.floor(Q)), A.floor(A.scale(Q, D(-1)))))
        if g is None:
            return P
        out = {}
        for m, k in P.items():
            rest = tuple(x for x in m if x[0] != g[0])
            out = A.add(out, {m: k} if len(rest) == len(m) else A.mul(g[1], {rest: k}))
        P = out
    return P
