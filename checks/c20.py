"""C20: the Sun angle calculator chains the time scales, frames and units correctly."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import geo
import iau
from chk import *  # noqa

E = 'tofas_extras.lib'
K = 'tofas_extras::sun_angle::SunAngleCalculator::'
SITE = 'crates/tofas_extras/src/sun_angle.rs'
AU = D('149597870.7') * 1000
XP, YP, DUT1 = D('0.0349282'), D('0.4833163'), D('-0.072073685')
F_WGS = D('298.257223563')
JD, DELTA, PN, ERA, EPV = 'tofas::calendar::GregorianDate::to_julian', 'DeltaAt>::delta_at', 'tofas::frames::celestial_to_intermediate', \
    'tofas::earth::rotation_angle', '<tofas::earth::EarthPosVel as std::convert::From<tofas::time::TDB>>::from'
# what celestial_to_intermediate is made of, for a caller that does not go through it
LOW = ['tofas::frames::nutation', 'tofas::frames::precession_rate', 'tofas::frames::mean_obliquity', 'tofas::frames::bias_and_precession', 'tofas::locator::cio']


class Parts:
    """library routines decided by other properties: recorded calls, one set of symbols for equal arguments"""

    def __init__(self, c, A, low):
        self.c, self.A, self.low, self.calls = c, A, low, []

    def hook(self, key, fn):
        for k in [JD, DELTA, ERA, EPV] + (LOW if self.low else [PN]):
            if key == k or k == DELTA and key.endswith(k) and 'GregorianDate' in key and 'HMS' not in key:
                return lambda s, key, args, dty: self.result(s, k, args, dty)
        return None

    def result(self, s, k, args, dty):
        A = self.A
        ls = [[X(A, A.nf(x)) if x.kind != 'b' else X(A, A.cond(x, A.root)) for x in s.leaves(a, [])] for a in args]
        if k in [PN, ERA, EPV] + LOW:
            arg = [sum_(ls[0])] + [x for l in ls[1:] for x in l]           # a two-part date counts by the instant it denotes
        else:
            arg = [x for l in ls for x in l]
        for k2, arg2, v, sym in self.calls:
            if k2 == k and len(arg) == len(arg2) and not any(A.differ(x.p, y.p) for x, y in zip(arg, arg2)):
                return v if k == DELTA else s.sym(dty, *sym)
        n = sum(1 for x in self.calls if x[0] == k)
        nm = {JD: 'jd', DELTA: 'dat', PN: 'c2i', ERA: 'era', EPV: 'epv'}.get(k, k.split('::')[-1]) + str(n)
        if k == DELTA:
            v = self.delta(s, dty, nm)
        else:
            lim = {JD: 4e9, ERA: 6.3, EPV: 1.2}.get(k, 1.0)
            sym = nm, AnyRange(-lim if k != ERA else 0.0, lim)
            v = s.sym(dty, *sym)
        self.calls.append((k, arg, v, sym if k != DELTA else None))
        return v

    def delta(self, s, dty, nm):
        """Ok(None) before 1960, Ok(Some(seconds)) after; the error only for fractions outside [0, 1]"""
        t = s.p.types
        ok = next(i for i, v in enumerate(t[dty]['v']) if v['name'] == 'Ok')
        oty = t[dty]['v'][ok]['f'][0][1]
        none = next(i for i, v in enumerate(t[oty]['v']) if v['name'] == 'None')
        self.dat, self.old = fvar(nm, -100.0, 100.0), N.bs('before 1960')
        return Agg(dty, ok, (IteVal(self.old, Agg(oty, none, ()), Agg(oty, 1 - none, (self.dat,))),))

    def find(self, k):
        return [x for x in self.calls if x[0] == k]


class AnyRange:
    def __init__(self, lo, hi):
        self.r = (lo, hi, False)

    def get(self, *a):
        return self.r

    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        return self.r


def body(c):
    p = c.prog(E)

    def one(low=False):
        A = Alg()
        parts = Parts(c, A, low)
        s = Interp(p, opaque=parts.hook)
        dty = next(i for i, t in p.types.items() if t['k'] == 'adt' and t['name'] == 'tofas::calendar::GregorianDate')
        date = s.sym(dty, 'date')
        hour, minute, second = N.isym('hour', 0, 23), N.isym('minute', 0, 59), fvar('second', 0.0, N.prv(60.0))
        lon, lat, height, delta = fvar('lon', -1e6, 1e6), fvar('lat', -1e6, 1e6), fvar('height', -1e9, 1e9), fvar('delta_s', -1e10, 1e10)
        par = geo.struct(p, 'sun_angle::SunAngleParameters', date=date,
                         time=geo.struct(p, 'calendar::HMS', hour=hour, minute=minute, second=second),
                         position=geo.struct(p, 'ellipsoid::Geodetic360', lon=lon, lat=lat, height=height))
        # the ellipsoid denominator: a sum of two squares that do not vanish together
        lam, phi, q = nf(A, lon) * TURN / 360, nf(A, lat) * TURN / 360, (con(A, 1) - con(A, 1) / con(A, F_WGS)) ** 2
        d = phi.cos() ** 2 + q * phi.sin() ** 2
        A.fact(d.p, '+')
        calc = call(c, K + 'new', par, prog=E, s=s, allow=('unwrap_failed', 'expect'))
        r = call(c, K + 'compute', calc, delta, prog=E, s=s)
        if not low and not parts.find(PN):
            return one(True)
        w = c.where(K + 'compute', E)
        A_ = lambda n: nf(A, n)  # noqa

        # --- the calendar
        jds, dats = parts.find(JD), parts.find(DELTA)
        dl = [X(A, A.nf(x)) for _, x in scalars(date)]
        if not c.ob('the calendar date is converted once', len(jds) == 1, '%d conversions' % len(jds), w) or \
                not c.ob('TAI-UTC is looked up once', len(dats) == 1, '%d look-ups' % len(dats), w):
            return
        for nm, call_ in (('to_julian', jds[0]), ('delta_at', dats[0])):
            c.ob('%s receives the date of the parameters' % nm, len(call_[1]) >= 3 and not any(A.differ(a.p, b.p) for a, b in zip(call_[1], dl)),
                 'another date', w)
        fr0 = (A_(hour) * 3600 + A_(minute) * 60 + A_(second)) / 86400
        eq(c, 'delta_at receives the time of day', A, dats[0][1][3], fr0, w)
        jd = [A_(x) for _, x in scalars(jds[0][2])]
        day = A_(delta) / 86400

        # --- the scales
        eq(c, 'jd0: the day number part of the date', A, get(p, r, 'jd0'), jd[0], w)
        eq(c, 'jd1: the date, the time and the offset', A, get(p, r, 'jd1'), jd[1] + fr0 + day, w)
        utc = jd[0] + jd[1] + fr0 + day
        pre = X(A, A.cond(parts.old, A.root))
        dat = gate(pre, con(A, 0), A_(parts.dat))
        eq(c, 'dat: TAI-UTC, 0 before 1960', A, get(p, r, 'dat'), dat, w)
        eq(c, 'delta_s is echoed', A, get(p, r, 'delta_s'), A_(delta), w)
        tai = utc + dat / 86400
        tt = tai + D('32.184') / 86400
        ut1 = utc + DUT1 / 86400
        total = lambda n: sum_([A_(x) for _, x in scalars(get(p, r, n))])  # noqa
        for nm, want in (('utc', utc), ('tai', tai), ('tt', tt), ('ut1', ut1)):
            eq(c, '%s: the instant in that scale' % nm, A, total(nm), want, w)

        # --- the routines called, at the instants of their scales
        def single(k, want, nm):
            l = [x for x in parts.find(k) if not A.differ(x[1][0].p, want.p)]
            other = [x for x in parts.find(k) if A.differ(x[1][0].p, want.p)]
            c.ob('%s is evaluated at the instant of its scale' % nm, l and not other,
                 'evaluated at %s' % (A.sh(other[0][1][0].p, 6) if other else 'no instant'), w)
            return l[0][2] if l else None
        era, epv = single(ERA, ut1, 'the Earth rotation angle'), single(EPV, tt, 'the ephemeris')
        if low:
            c2i = call(c, PN, [x for _, x in scalars(get(p, r, 'tt'))], s=Interp(c.prog(), opaque=parts.hook))
        else:
            c2i = single(PN, tt, 'the celestial to intermediate matrix')
        if era is None or c2i is None or epv is None:
            return
        eq(c, 'era: the Earth rotation angle', A, get(p, r, 'era'), A_(era), w)
        he = [A_(x) for _, x in scalars(get(p, get(p, epv, 'heliocentric'), 'p'))]
        for i in range(3):
            eq(c, 'earth: heliocentric position %d' % i, A, get(p, r, 'earth.%d' % i), he[i], w)

        # --- the site
        n = con(A, 6378137) / d.sqrt()
        up = [phi.cos() * lam.cos(), phi.cos() * lam.sin(), phi.sin()]
        site = [(n + A_(height)) * up[0], (n + A_(height)) * up[1], (n * q + A_(height)) * up[2]]
        for i in range(3):
            eq(c, 'p: site coordinate %d on WGS84' % i, A, get(p, r, 'p.%d' % i), site[i], w)

        # --- the Sun in the terrestrial frame
        ms = [collapse(x) for _, x in scalars(c2i)]
        if low:                      # its entries by name: C11 decides what they are
            A = Alg(cut={x: 'c2i.%d' % i for i, x in enumerate(ms)})
            he = [A_(x) for _, x in scalars(get(p, get(p, epv, 'heliocentric'), 'p'))]
        m = [A_(x) for x in ms]
        as2r = TURN / 360 / 3600
        pol = matmul(matmul(rot(0, con(A, -YP * as2r)), rot(1, con(A, -XP * as2r))), rot(2, con(A, 0)))
        t = matmul(pol, matmul(rot(2, A_(era)), [m[0:3], m[3:6], m[6:9]]))
        sun = [collapse(get(p, r, 'sun_e.%d' % i)) for i in range(3)]
        ok = True
        for i in range(3):
            ok &= eq(c, 'sun_e: component %d of the terrestrial Sun vector in metres' % i, A, sun[i], sum_([t[i][j] * he[j] * -AU for j in range(3)]), w)

        # --- the angle
        if ok:
            B = Alg(cut={x: 'sun%d' % i for i, x in enumerate(sun)})
            ph, la = nf(B, lat) * TURN / 360, nf(B, lon) * TURN / 360
            v = [nf(B, x) for x in sun]
            n2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
            B.fact(n2.p, '+')
            u = [ph.cos() * la.cos(), ph.cos() * la.sin(), ph.sin()]
            cs = sum_([x * y for x, y in zip(u, v)]) / n2.sqrt()
            B.fact((cs - 1).p, '-0')
            B.fact((cs + 1).p, '+0')
            B.fact((sum_([x * y for x, y in zip(u, v)]) - n2.sqrt()).p, '-0')
            z = collapse(get(p, r, 'sza'))
            eq(c, 'sza: the angle between the vertical and the Sun', B, z, cs.acos(), w)
            cx, seen = Ctx(), set()

            def norms(x):
                if x in seen:
                    return
                seen.add(x)
                for y in x.args:
                    norms(y)
                if x.op == 'fsqrt':
                    cx.refine(x, (1e-75, 2e75, False))
            norms(z)
            iv = cx.iv(z)
            c.ob('sza: in [0, pi], never NaN', not iv[2] and iv[0] >= 0 and iv[1] <= N.nxt(N.nxt(3.141592653589793)), 'range %r' % (iv,), w)
    c.attempt('SunAngleCalculator', None, one)


def nf(A, n):
    return X(A, A.nf(n))


if __name__ == '__main__':
    main('C20', body, floor=25)
