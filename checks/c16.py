"""C16: ellipsoid validation, geodetic to geocentric, zenith, WGS84."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import geo
from chk import *  # noqa


def body(c):
    p = c.prog()
    w = c.where(geo.NEW)
    a, f = fvar('a'), fvar('f')
    nan, inf = N.fc(float('nan')), N.fc(INF)
    OK, RAD, FLAT = ('Ok',), ('Err', 'InvalidRadius'), ('Err', 'InvalidFlattening')

    def validation():
        r = call(c, geo.NEW, geo.ell(p, a, f))
        # real cases of (a, f): facts or values, and the only possible outcome
        for name, fa, ff, want in (
                ('radius positive, flattening in (0, 1)', '+', 'in', OK),
                ('radius positive, flattening 0', '+', '0', OK),
                ('radius positive, flattening negative', '+', '-', FLAT),
                ('radius positive, flattening 1', '+', '1', FLAT),
                ('radius positive, flattening above 1', '+', 'over', FLAT),
                ('radius 0, flattening in (0, 1)', '0', 'in', RAD),
                ('radius negative, flattening in (0, 1)', '-', 'in', RAD),
                ('radius 0, flattening 0', '0', '0', RAD),
                ('radius negative, flattening 0', '-', '0', RAD)):
            A = Alg()
            if fa == '0':
                A.bind[a] = {}
            if ff in ('0', '1'):
                A.bind[f] = A.const(D(ff))
            F, R = X(A, A.nf(f)), X(A, A.nf(a))
            if fa != '0':
                A.fact(R.p, fa)
            if ff == 'in':
                A.fact(F.p, '+')
            if ff in ('in', 'over'):
                A.fact((F - 1).p, '-' if ff == 'in' else '+')
                if ff == 'over':
                    A.fact(F.p, '+')
                A.fact((F * F - F * 2 + 1).p, '+')   # (1 - f)^2
            if ff == '-':
                A.fact(F.p, '-')
                A.fact((F - 1).p, '-')
                A.fact((F * F - F * 2 + 1).p, '+')
            holds(c, 'new: %s gives %s' % (name, want[-1]), A, part(A, p, r, want), 1, w)
        got = [n for _, n in scalars(geo_ok(r))]
        c.ob('new: the converter holds the given ellipsoid', a in got and f in got, 'the converter does not keep the radius and the flattening', w)

    def geo_ok(r):
        return next(v for _, n, v in variants(p, r) if n == 'Ok').f[0]

    def odd():
        pos, frac = fvar('a', 1e-30, 1e30), fvar('f', 0.0, 0.9)
        for name, av, fv, want in (('NaN flattening', pos, nan, FLAT), ('infinite flattening', pos, inf, FLAT),
                                   ('NaN radius', nan, frac, RAD), ('NaN radius and flattening', nan, nan, FLAT),
                                   ('-infinite radius', N.fc(-INF), frac, RAD), ('-infinite flattening', pos, N.fc(-INF), FLAT)):
            r = call(c, geo.NEW, geo.ell(p, av, fv))
            got = set()
            for cx, n, v in variants(p, r):
                got |= {(n,)} if n == 'Ok' else {(n, m) for _, m, _ in variants(p, v.f[0], cx)}
            bad = {g for g in got if g[0] == 'Ok'} if av is nan and fv is nan else got - {want}
            c.ob('new: %s is rejected' % name, not bad, 'outcome %s' % sorted(got), w)
    c.attempt('validation', geo.NEW, validation)
    c.attempt('validation of NaN and infinities', geo.NEW, odd)

    # ---- conversions with any valid ellipsoid
    av, fv = fvar('a', 1e-3, 1e12), fvar('f', 0.0, 0.9)
    elong, phi, h = fvar('elong', -1e3, 1e3), fvar('phi', -1e3, 1e3), fvar('height', -1e12, 1e12)

    def forward():
        s = Interp(p)
        conv = geo.converter(c, s, av, fv)
        el = call(c, geo.E + 'EllipsoidConverter::ellipsoid', conv, s=s)
        if el.__class__ is Ref:
            el = s.read(el.root, el.path)
        c.ob('ellipsoid(): returns what was given', get(p, el, 'a') is av and get(p, el, 'f') is fv, 'another value is returned',
             c.where(geo.E + 'EllipsoidConverter::ellipsoid'))
        gd = geo.struct(p, 'Geodetic', elong=elong, phi=phi, height=h)
        r = call(c, geo.TOGC, conv, gd, s=s)
        w = c.where(geo.TOGC)
        z = [n for _, n in scalars(call(c, geo.E + 'Geodetic::zenith', gd, s=s))]
        A = Alg()
        L, P, H, R, F = (X(A, A.nf(v)) for v in (elong, phi, h, av, fv))
        q = (con(A, 1) - F) ** 2
        d = P.cos() ** 2 + q * P.sin() ** 2
        A.fact(d.p, '+')     # a sum of two squares that do not vanish together
        holds(c, 'geodetic_to_geocentric succeeds', A, part(A, p, r, ('Ok',)), 1, w)
        n = R / d.sqrt()
        up = [P.cos() * L.cos(), P.cos() * L.sin(), P.sin()]
        foot = [n * up[0], n * up[1], n * q * up[2]]
        # the oracle itself: the foot is on the ellipsoid and `up` is normal to it
        c.ob('reference: foot on the ellipsoid', not A.differ((q * (foot[0] ** 2 + foot[1] ** 2) + foot[2] ** 2).p, (R * R * q).p), 'oracle')
        g = [q * foot[0], q * foot[1], foot[2]]
        for i, j in ((0, 1), (1, 2), (2, 0)):
            c.ob('reference: vertical normal to the ellipsoid %d%d' % (i, j), not A.differ((g[i] * up[j]).p, (g[j] * up[i]).p), 'oracle')
        for i in range(3):
            eq(c, 'zenith: component %d' % i, A, z[i], up[i], c.where(geo.E + 'Geodetic::zenith'))
            eq(c, 'geodetic_to_geocentric: coordinate %d is the point at the height along the normal' % i, A,
               X(A, part(A, p, r, ('Ok',), str(i))), foot[i] + H * up[i], w)
    c.attempt('geodetic_to_geocentric', geo.TOGC, forward)

    def wgs():
        v = constant(c, geo.E + 'WGS84')
        c.ob('WGS84: a = 6378137 m', N.cval(get(p, v, 'a')) == 6378137.0, 'a = %r' % N.cval(get(p, v, 'a')), 'crates/tofas/src/ellipsoid.rs (WGS84)')
        fl = N.cval(get(p, v, 'f'))
        c.ob('WGS84: 1/f = 298.257223563', abs(D(fl) * D('298.257223563') - 1) < D('3e-16'), 'f = %r' % fl, 'crates/tofas/src/ellipsoid.rs (WGS84)')
    c.attempt('WGS84', None, wgs)


if __name__ == '__main__':
    main('C16', body, floor=30)
