"""C18: radians and degrees denote the same point; normalisation of longitude and latitude."""
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import geo
from chk import *  # noqa

G, G360 = 'tofas::ellipsoid::Geodetic', 'tofas::ellipsoid::Geodetic360'
DEG = TURN / 360


def key(dst, src):
    return '<%s as std::convert::From<%s>>::from' % (dst, src)


def body(c):
    p = c.prog()
    H = fvar('height', -1e15, 1e15)

    def norm(k, lo, hi, plo, phi):
        lam, ph = fvar('elong', lo, hi), fvar('phi', plo, phi)
        r = call(c, k, geo.struct(p, 'Geodetic', elong=lam, phi=ph, height=H))
        return lam, ph, [get(p, r, n) for n in ('lon', 'lat', 'height')]

    def todeg(k):
        w = c.where(k)
        # in range (a margin of 1e-12 below +-180 keeps the rounding of the sum below 360)
        for nm, lo, hi, plo, phi in (('in range', -179.999999999, 179.999999999, -90.0, 90.0),
                                     ('east, north', 0.0, 179.999999999, 0.0, 90.0), ('west, south', -179.999999999, 0.0, -90.0, 0.0)):
            lam, ph, out = norm(k, math.radians(lo), math.radians(hi), math.radians(plo), math.radians(phi))
            A = Alg()
            for n, got, want in (('longitude', out[0], X(A, A.nf(lam)) / DEG), ('latitude', out[1], X(A, A.nf(ph)) / DEG), ('height', out[2], X(A, A.nf(H)))):
                eq(c, '%s: %s unchanged, %s' % (k, n, nm), A, got, want, w)
        for q, name in ((math.pi / 2, 'North'), (-math.pi / 2, 'South')):
            lam, ph, out = norm(k, 0.0, 1.0, q, q)
            iv = Ctx().iv(out[1])
            c.ob('%s: %s pole' % (k, name), not iv[2] and abs(iv[0] - math.copysign(90.0, q)) < 1e-12 and abs(iv[1] - iv[0]) < 1e-12,
                 'latitude %s' % (iv,), w)
        lam, ph, out = norm(k, -math.pi, -math.pi, 0.0, 0.0)
        iv = Ctx().iv(out[0])
        c.ob('%s: date line' % k, not iv[2] and abs(iv[0] + 180) < 1e-12 and abs(iv[1] + 180) < 1e-12, 'longitude %s' % (iv,), w)
        # any angle: whole and half turns, result interval
        for lim in (7.0, 1e3, 1e9, 1e300):
            lam, ph, out = norm(k, -lim, lim, -lim, lim)
            cx = Ctx()
            for n, got, b in (('longitude', out[0], 180.0), ('latitude', out[1], 90.0)):
                iv = cx.iv(got)
                c.ob('%s: %s in [-%g, %g] for angles up to %g' % (k, n, b, b, lim), not iv[2] and -b <= iv[0] and iv[1] <= b, 'interval %s' % (iv,), w)
            if lim > 1e8:
                continue
            A = Alg()
            eq(c, '%s: longitude modulo whole turns up to %g' % (k, lim), A, X(A, A.nf(out[0])) * DEG, X(A, A.nf(lam)), w, mod=True)
            eq(c, '%s: latitude modulo half turns up to %g' % (k, lim), A, X(A, A.nf(out[1])) * DEG * 2, X(A, A.nf(ph)) * 2, w, mod=True)
            eq(c, '%s: height kept up to %g' % (k, lim), A, out[2], X(A, A.nf(H)), w)

    def torad(k):
        w = c.where(k)
        lon, lat = fvar('lon', -1e3, 1e3), fvar('lat', -1e3, 1e3)
        r = call(c, k, geo.struct(p, 'Geodetic360', lon=lon, lat=lat, height=H))
        A = Alg()
        for n, want in (('elong', X(A, A.nf(lon)) * DEG), ('phi', X(A, A.nf(lat)) * DEG), ('height', X(A, A.nf(H)))):
            eq(c, '%s: %s' % (k, n), A, get(p, r, n), want, w)

    for ref in ('', '&'):
        k = key(G360, ref + G)
        c.attempt(k, k, lambda: todeg(k))
        k = key(G, ref + G360)
        c.attempt(k, k, lambda: torad(k))
        # NaN and infinities: returns
        for d, s in ((G360, G), (G, G360)):
            k = key(d, ref + s)
            c.attempt(k + ' with any value', k, lambda: call(c, k, None))
            c.ob(k + ': returns for any value', True)


if __name__ == '__main__':
    main('C18', body, floor=50)
