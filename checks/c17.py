"""C17: geocentric to geodetic is the SOFA gc2gde step, odd/even in z, for every point."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import geo
from chk import *  # noqa

PI_2 = TURN / 4


def body(c):
    p = c.prog()
    w = c.where(geo.TOGD)
    a, f = fvar('a', 1e-3, 1e12), fvar('f', 0.0, 0.9)
    x, y, z = (fvar(n, -1e12, 1e12) for n in 'xyz')

    def run():
        s = Interp(p)
        conv = geo.converter(c, s, a, f)
        r = call(c, geo.TOGD, conv, [x, y, z], s=s)
        out = [get(p, r, n) for n in ('elong', 'phi', 'height')]
        for zname, zs in (('north', '+'), ('south', '-'), ('equator', '0')):
            for where in ('off the axis', 'next to the axis', 'on the axis'):
                A = Alg()
                # radius r, flattening 1 - k, point at distance r*d from the axis (r*1e-16*d near it) and r*q from the equator
                R, k, d, q, lam = (sym(A, n) for n in ('r', 'k', 'd', 'q', 'lambda'))
                for t in (R, k, d):
                    A.fact(t.p, '+')
                A.fact((k - 1).p, '-0')
                q = {'+': q, '-': -q, '0': con(A, 0)}[zs]
                if zs != '0':
                    A.fact(q.p if zs == '+' else (-q).p, '+')
                scale = con(A, 1 if where == 'off the axis' else D('1e-16') if where == 'next to the axis' else 0)
                P, Z, F = R * scale * d, R * q, con(A, 1) - k
                Xx, Yy = P * lam.cos(), P * lam.sin()
                if where == 'next to the axis':
                    A.fact((d * d - 1).p, '-')
                if where == 'off the axis':
                    A.fact((d * d - D('1e-32')).p, '+')
                A.bind.update({a: R.p, f: F.p, x: Xx.p, y: Yy.p, z: Z.p})
                az = -Z if zs == '-' else Z
                ec = k                        # sqrt(1 - e2), 1 - e2 = (1 - f)^2
                e2 = con(A, 1) - k * k
                lon = con(A, 0) if where == 'on the axis' else atan2(Yy, Xx)
                if where == 'off the axis':
                    s0, pn = az / R, P / R
                    zc, c0 = ec * s0, ec * pn
                    a02 = c0 ** 2 + s0 ** 2
                    A.fact(a02.p, '+')
                    a0 = a02.sqrt()
                    a03 = a02 * a0
                    d0, f0, b0, s1, cc = (sym(A, n) for n in ('d0', 'f0', 'b0', 's1', 'cc'))
                    inter = [(zc * a03 + e2 * s0 ** 3, d0), (pn * a03 - e2 * c0 ** 3, f0),
                             (e2 ** 2 * D('1.5') * s0 ** 2 * c0 ** 2 * pn * (a0 - ec), b0),
                             (d0 * f0 - b0 * s0, s1), (ec * (f0 ** 2 - b0 * c0), cc)]
                    if zs == '0':
                        d0 = b0 = s1 = con(A, 0)
                        inter = [(pn * a03 - e2 * c0 ** 3, f0), (ec * f0 ** 2, cc)]
                    sweep(A, out, inter)
                    lat = (s1 / cc).atan()
                    h = (P * cc + az * s1 - R * (ec ** 2 * s1 ** 2 + cc ** 2).sqrt()) / (s1 ** 2 + cc ** 2).sqrt()
                else:
                    lat = con(A, PI_2)
                    h = az - R * ec
                if zs == '-':
                    lat = -lat
                elif zs == '0' and where != 'off the axis' and not A.differ(A.nf(out[1]), (-lat).p):
                    lat = -lat                    # the centre has no side
                for n, got, want in zip(('longitude', 'latitude', 'height'), out, (lon, lat, h)):
                    eq(c, 'geocentric_to_geodetic: %s %s, %s' % (n, where, zname), A, got, want, w)
    c.attempt('geocentric_to_geodetic', geo.TOGD, run)


if __name__ == '__main__':
    main('C17', body, floor=27)
