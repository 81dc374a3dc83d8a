"""C24: two-part dates keep their precision: forward rounding analysis of the elapsed times."""
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import geo
from chk import *  # noqa
from c23 import clocks

SCALES = ('TT', 'TAI', 'UTC', 'UT1', 'TDB')
LIMIT = 5e-6 / 86400            # days
ERA = 'tofas::earth::rotation_angle'
# how 1800 to 2200 is split: name, interval of the first part, of the second; the first is a multiple of half a day
SPLITS = (('day number and fraction', (2378495.5, 2524595.5), (0.0, 1.0)),
          ('modified Julian date', (2400000.5, 2400000.5), (-21505.0, 124595.0)),
          ('days from J2000', (2451545.0, 2451545.0), (-73050.0, 73050.0)))


def grid(v):
    """v is a multiple of 2^k"""
    if v == 0:
        return 1000
    m, d = v.as_integer_ratio()
    return -(d.bit_length() - 1) if d > 1 else (m & -m).bit_length() - 1


def half(m):
    return math.ulp(m) / 2 if m < INF else INF


class Err:
    """bounds of the accumulated rounding error of the nodes, for one split"""

    def __init__(self, cx, half_days):
        self.cx, self.memo, self.hd = cx, {}, half_days

    def mag(self, n):
        iv = self.cx.iv(n)
        return max(abs(iv[0]), abs(iv[1])) if not iv[2] else INF

    def get(self, n):
        r = self.memo.get(n)
        if r is None:
            r = self.memo[n] = self.eval(n)
        return r

    def rnd(self, n, g, e):
        m = self.mag(n)
        if g is not None and m <= 2.0 ** (53 + g):
            return g, e
        return None, e + half(m)

    def eval(self, n):
        op, a = n.op, n.args
        if n in self.hd:
            return -1, 0.0
        if op == 'fc':
            return grid(n.p if isinstance(n.p, float) else N.cval(n)), 0.0
        if op in ('fs', 'i2f'):
            return (0 if op == 'i2f' else None), 0.0
        if op in ('fadd', 'fsub'):
            (g, e), (h, f) = self.get(a[0]), self.get(a[1])
            return self.rnd(n, min(g, h) if g is not None and h is not None else None, e + f) if self.mag(a[0]) and self.mag(a[1]) else \
                (h if self.mag(a[1]) else g, e + f)
        if op in ('fmul', 'fdiv', 'ffma'):
            (g, e), (h, f) = self.get(a[0]), self.get(a[1])
            k = g + h if g is not None and h is not None and op == 'fmul' else None
            if op == 'fdiv':
                iv = self.cx.iv(a[1])
                low = min(abs(iv[0]), abs(iv[1])) if iv[0] > 0 or iv[1] < 0 else 0.0
                if not low:
                    return None, INF
                return self.rnd(n, None, (e + self.mag(n) * f) / low)
            err = self.mag(a[1]) * e + self.mag(a[0]) * f if e or f else 0.0
            if op == 'ffma':
                err += self.get(a[2])[1]
            return self.rnd(n, k if op == 'fmul' else None, err)
        if op in ('fneg', 'fabs'):
            return self.get(a[0])
        if op in ('fmin', 'fmax'):
            return self.join(self.get(a[0]), self.get(a[1]))
        if op == 'frem':
            # exact; an error of the dividend can add or remove whole multiples of the divisor only
            (g, e), (h, f) = self.get(a[0]), self.get(a[1])
            return (min(g, h) if g is not None and h is not None else None), e if f == 0 else INF
        if op in ('ffloor', 'fceil', 'ftrunc', 'fround', 'froundeven'):
            return (0, 0.0) if self.get(a[0])[1] < 0.5 else (None, INF)
        if op == 'fite':
            d = self.cx.decide(a[0])
            if d is not None:
                return self.get(a[1] if d else a[2])
            return self.join(self.get(a[1]), self.get(a[2]))
        if op in ('fsin', 'fcos', 'fatan'):
            return None, self.get(a[0])[1] + 2.3e-16
        return None, INF

    @staticmethod
    def join(x, y):
        return (min(x[0], y[0]) if x[0] is not None and y[0] is not None else None), max(x[1], y[1])


def turned(roots, d):
    """arguments of the sines and cosines that depend on the date d alone"""
    dep, out, seen = {}, [], set()

    def syms(n):
        if n not in dep:
            dep[n] = frozenset([n]) if n.op == 'fs' else frozenset().union(*[syms(a) for a in n.args]) if n.args else frozenset()
        return dep[n]

    def go(n):
        if n in seen:
            return
        seen.add(n)
        if n.op in ('fsin', 'fcos') and syms(n) and syms(n) <= set(d):
            out.append(n.args[0])
            return
        for a in n.args:
            go(a)
    for r in roots:
        go(r)
    return list(dict.fromkeys(out))


CAL = 'tofas::calendar::'
JD, DELTA = CAL + 'GregorianDate::to_julian', 'DeltaAt>::delta_at'


def hook(key, fn):
    if key == JD:           # C02: 2400000.5 and a whole number of days
        return lambda s, key, args, dty: Agg(dty, 0, (N.fc(2400000.5), N.i2f(N.isym('day', -21505, 124595))))
    if key.endswith(DELTA) and 'GregorianDate' in key and 'HMS' not in key:      # C05: a bounded number
        def delta(s, key, args, dty):
            T = s.p.types
            ok = next(i for i, v in enumerate(T[dty]['v']) if v['name'] == 'Ok')
            oty = T[dty]['v'][ok]['f'][0][1]
            some = next(i for i, v in enumerate(T[oty]['v']) if v['name'] == 'Some')
            return Agg(dty, ok, (IteVal(N.bs('before 1960'), Agg(oty, 1 - some, ()), Agg(oty, some, (fvar('dat', 0.0, 1000.0),))),))
        return delta
    return None


def civil(P, s):
    dty = next(i for i, t in P.types.items() if t['k'] == 'adt' and t['name'] == CAL + 'GregorianDate')
    return dict(date=s.sym(dty, 'date')), geo.struct(P, 'calendar::HMS', hour=N.isym('hour', 0, 23), minute=N.isym('minute', 0, 59), second=fvar('second', 0.0, 60.0))


def body(c):
    p = c.prog()
    scale = {i for i, t in p.types.items() if t['k'] == 'adt' and t['name'] in ['tofas::time::' + s for s in SCALES]}
    count = 0

    def microseconds(days):
        return '%.3g microseconds' % (days * 86400e6)

    def splits(d):
        for nm, a, b in SPLITS:
            cx = Ctx()
            cx.refine(d[0], (a[0], a[1], False))
            cx.refine(d[1], (b[0], b[1], False))
            yield nm, Err(cx, {d[0]})

    def one(it, key, tys, out):
        name, w = it['name'], '%s:%s' % tuple(it['span'])
        dates, args = [], []
        for i, ty in enumerate(tys):
            base = p.types[ty]['e'] if p.types[ty]['k'] == 'ref' else ty
            if base in scale:
                d = [fvar('date%d' % i, -1e7, 1e7), fvar('part%d' % i, -1e7, 1e7)]
                dates.append((d, base))
                args.append(d)
            else:
                fl = []
                Interp(p).leaves(Interp(p).sym(base, 'a'), fl)
                args.append([fvar('a%d.%d' % (i, j), -.7, .7) if x.kind == 'f' else x for j, x in enumerate(fl)])
        r = call(c, key, *args, alarms=False)
        leaves = [x for _, x in scalars(r) if isinstance(x, N.Node) and x.kind == 'f']
        if out in scale:
            for d, _ in dates[:1]:
                for nm, er in splits(d):
                    e = sum(er.get(x)[1] for x in leaves)
                    c.ob('%s: rounding of the converted date, %s' % (name, nm), e <= LIMIT, 'up to ' + microseconds(e), w)
            return
        for d, ty in dates:
            ut1 = p.types[ty]['name'] == 'tofas::time::UT1'
            # UT1 enters through the rotation angle alone: its error is what counts; the others through the elapsed time
            ck = {} if ut1 else clocks(Alg(), d[0], d[1], leaves)
            angles = leaves if key == ERA else turned(leaves, d) if ut1 else []
            if ut1:
                c.ob('%s: the rotation angle is found' % name, angles, 'no sine or cosine of a function of the date', w)
            for nm, er in splits(d):
                for n, (a, b) in ck.items():
                    e = er.get(n)[1] / abs(float(a))
                    c.ob('%s: rounding of the elapsed time, %s' % (name, nm), e <= LIMIT, 'up to %s where the two parts are combined' % microseconds(e), w)
                for n in angles:
                    e = er.get(n)[1] / (2 * math.pi * 1.00273781191135448)
                    c.ob('%s: rounding of the angle, %s' % (name, nm), e <= LIMIT, 'up to ' + microseconds(e), w)
    for it in p.d['items']:
        if it['kind'] != 'Fn' or not it['reach'] or '{closure' in it['name'] or not it['key'] or it['key'] not in p.fns:
            continue
        b = p.fns[it['key']]['body']
        tys = [b['locals'][i + 1] for i in range(b['argc'])]
        strip = [p.types[t]['e'] if p.types[t]['k'] == 'ref' else t for t in tys]
        if not any(t in scale for t in strip) or it['name'].endswith('::total') or it['name'].endswith('::fmt'):
            continue
        out = b['locals'][0]
        if out in set(strip) and it['name'].endswith('::clone'):
            continue
        count += 1
        c.attempt(it['name'], it['key'], lambda: one(it, it['key'], tys, out))
    c.notes['routines'] = count

    # --- a calendar date with a time of day, and what the Sun angle calculator makes of it
    def instant(nm, v, w):
        er = Err(Ctx(), set())
        e = sum(er.get(collapse(x))[1] for _, x in scalars(v))
        c.ob('%s: rounding of the instant' % nm, e <= LIMIT, 'up to ' + microseconds(e), w)

    def hms():
        k = CAL + 'GregorianDateHMS::to_julian'
        s = Interp(p, opaque=hook)
        d, t = civil(p, s)
        instant('GregorianDateHMS::to_julian', call(c, k, geo.struct(p, 'calendar::GregorianDateHMS', hms=t, **d), s=s, alarms=False), c.where(k))
    c.attempt('GregorianDateHMS::to_julian', CAL + 'GregorianDateHMS::to_julian', hms)

    def sun():
        E, K = 'tofas_extras.lib', 'tofas_extras::sun_angle::SunAngleCalculator::'
        P = c.prog(E)
        s = Interp(P, opaque=hook)
        d, t = civil(P, s)
        pos = geo.struct(P, 'ellipsoid::Geodetic360', **{n: fvar(n, -180.0, 180.0) for n in ('lon', 'lat', 'height')})
        calc = call(c, K + 'new', geo.struct(P, 'sun_angle::SunAngleParameters', time=t, position=pos, **d), prog=E, s=s, alarms=False)
        r = call(c, K + 'compute', calc, fvar('delta_s', -1e7, 1e7), prog=E, s=s, alarms=False)
        for n in ('utc', 'tai', 'tt', 'ut1'):
            instant('SunAngleCalculator: ' + n, get(P, r, n), c.where(K + 'compute', E))
    c.attempt('SunAngleCalculator', None, sun)


if __name__ == '__main__':
    main('C24', body, floor=45)
