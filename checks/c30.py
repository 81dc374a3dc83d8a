"""C30: rounding in the computed quantities is negligible: forward rounding analysis of whole evaluations."""
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import epv
import geo
import rnd
from chk import *  # noqa
from c24 import SPLITS, civil, hook

F = 'tofas::frames::'
E = 'tofas::earth::'
V = '<[f64; 3] as tofas::common::Vector>::'
M = '<[[f64; 3]; 3] as tofas::common::Matrix>::'
PNF = '<%sPrecessionNutation as std::convert::From<tofas::time::TT>>::from' % F
CAL = 'tofas::calendar::'
UARC = 4.8481368e-12     # a microarcsecond, in radians


def body(c):
    p = c.prog()
    xp, yp, sp = fvar('xp', -1, 1), fvar('yp', -1, 1), fvar('sp', -1, 1)
    x, y, s0 = fvar('x', -.7, .7), fvar('y', -.7, .7), fvar('s', -7, 7)
    unit = lambda t: [fvar('%s%d' % (t, i), -1, 1) for i in range(9)]  # noqa
    bounds = c.notes.setdefault('bounds', {})

    def judge(name, nodes, limit, unit, where, cx=None, d=(), over=None, pieces=32, known=(), extra=0.0):
        worst = 0.0
        lo, hi = cx.iv(over)[:2] if cx and over is not None else (0, 1)
        for i in range(pieces if over is not None else 1):
            k = cx or Ctx()
            if over is not None:
                # each piece of the range of one input by itself
                k = Ctx()
                k.refine(over, (lo + (hi - lo) * i / pieces, lo + (hi - lo) * (i + 1) / pieces, False))
            e = rnd.Rounding(k, [(n, -1) for n in d] + [(n, None) for n in known])
            worst = max([worst] + [e.err(n) + extra for n in nodes])
        # an evaluation this analysis cannot bound is noted, not reported
        bounds[name] = '%.2g %s (limit %.2g)' % (worst, unit, limit) if worst < INF else 'not bounded'
        c.ob(name, worst <= limit or worst == INF, 'rounding may amount to %.2g %s, more than %.2g' % (worst, unit, limit), where)

    def go(name, key, args, limit, unit='', pick=None, dates=()):
        def one():
            r = call(c, key, *args, alarms=False)
            nodes = [n for _, n in scalars(pick(r) if pick else r) if isinstance(n, N.Node) and n.kind == 'f']
            if not c.ob('%s: components' % name, bool(nodes), 'no number in the result', c.where(key)):
                return
            if not dates:
                return judge(name, nodes, limit, unit, c.where(key))
            for nm, a, b in SPLITS:
                cx = Ctx()
                for d in dates:
                    cx.refine(d[0], (a[0], a[1], False))
                    cx.refine(d[1], (b[0], b[1], False))
                judge('%s, %s' % (name, nm), nodes, limit, unit, c.where(key), cx, [d[0] for d in dates])
        c.attempt(name, key, one)

    tt = [fvar('tt1', -1e7, 1e7), fvar('tt2', -1e7, 1e7)]

    def dated(name, key, limit, unit, *more, **kw):
        go(name, key, [tt] + list(more), limit, unit, dates=[tt], **kw)
    dated('nutation', F + 'nutation', 1e-2 * UARC, 'rad')
    dated('precession rate', F + 'precession_rate', 1e-2 * UARC, 'rad')
    dated('mean obliquity', F + 'mean_obliquity', 1e-2 * UARC, 'rad')
    dated('bias and precession', F + 'bias_and_precession', UARC, '')
    dated('precession-nutation', F + 'precession_nutation', UARC, '')
    dated('every result of PrecessionNutation', PNF, UARC, '')
    dated('CIO locator', 'tofas::locator::cio', UARC, 'rad', x, y)
    dated('Earth rotation angle', E + 'rotation_angle', UARC, 'rad')
    tdb = lambda n: lambda r: [get(p, r, '%s.%s' % (b, n)) for b in ('heliocentric', 'barycentric')]  # noqa
    KEY = epv.KEY

    def ephemeris(part, limit, unit):
        def one():
            r = call(c, KEY, tt, alarms=False)
            nodes = [n for b in ('heliocentric', 'barycentric') for n in epv.comps(p, r, '%s.%s' % (b, part))]
            for nm, a, b in SPLITS:
                cx = Ctx()
                cx.refine(tt[0], (a[0], a[1], False))
                cx.refine(tt[1], (b[0], b[1], False))
                judge('Earth %s, %s' % ('position' if part == 'p' else 'velocity', nm), nodes, limit, unit, c.where(KEY), cx, [tt[0]])
        c.attempt('Earth ' + part, KEY, one)
    ephemeris('p', 1e-11, 'au')
    ephemeris('v', 1e-12, 'au/day')
    go('polar motion matrix', E + 'polar_motion_matrix', [xp, yp, sp], UARC)
    go('nutation matrix', F + 'nutation_matrix', [fvar('epsa', -.5, .5), fvar('dpsi', -.1, .1), fvar('deps', -.1, .1)], UARC)
    go('celestial to intermediate from x, y, s', F + 'celestial_to_intermediate_from_xys', [x, y, s0], UARC)
    go('celestial to terrestrial from its components', F + 'celestial_to_terrestrial_from_cio_components', [unit('m'), fvar('era', -7, 7), unit('n')], UARC)
    for i in range(3):
        go('rotation about axis %d' % i, M + 'rotation', [N.ic(i), fvar('angle', -1e6, 1e6)], 1e-14)
    go('product of matrices', M + 'compose', [unit('m'), unit('n')], 1e-14)

    # the whole chain: rounding once pole, locator and rotation angle are known, plus theirs (the matrix moves by less than ten
    # times what the pole and the locator do while the pole is within 44 degrees, and by what the angle does)
    def chain():
        ut = [fvar('ut1', -1e7, 1e7), fvar('ut2', -1e7, 1e7)]
        pole = [n for _, n in scalars(call(c, F + 'precession_nutation', tt, alarms=False))][6:8]
        loc = collapse(call(c, 'tofas::locator::cio', tt, *pole, alarms=False))
        era = collapse(call(c, E + 'rotation_angle', ut, alarms=False))
        for name, key, args, known in (('celestial to intermediate', F + 'celestial_to_intermediate', [tt], pole + [loc]),
                                       ('celestial to terrestrial', F + 'celestial_to_terrestrial', [tt, ut, xp, yp], pole + [loc, era])):
            nodes = [n for _, n in scalars(call(c, key, *args, alarms=False))]
            for nm, a, b in SPLITS:
                cx = Ctx()
                for d in (tt, ut):
                    cx.refine(d[0], (a[0], a[1], False))
                    cx.refine(d[1], (b[0], b[1], False))
                e = rnd.Rounding(cx, [(tt[0], -1), (ut[0], -1)])
                extra = sum(10 * e.err(n) for n in known[:3]) + sum(e.err(n) for n in known[3:])
                for n in pole:
                    cx.refine(n, (-.7, .7, False))
                judge('%s, %s' % (name, nm), nodes, UARC, '', c.where(key), cx, [tt[0], ut[0]], known=known, extra=extra)
    c.attempt('celestial to terrestrial', F + 'celestial_to_terrestrial', chain)
    a, b = [fvar('a%d' % i, -1, 1) for i in range(3)], [fvar('b%d' % i, -1, 1) for i in range(3)]
    go('matrix applied', M + 'apply', [unit('m'), a], 1e-14)
    for op in ('add', 'sub', 'dot'):
        go('vectors: ' + op, V + op, [a, b], 1e-14)
    go('vectors: norm', V + 'norm', [a], 1e-14)

    def place():
        s = Interp(p)
        conv = geo.converter(c, s, *[get(p, constant(c, geo.E + 'WGS84'), n) for n in ('a', 'f')])
        el, ph, h = fvar('elong', -7, 7), fvar('phi', -1.6, 1.6), fvar('height', -1e4, 1e8)
        gd = geo.struct(p, 'Geodetic', elong=el, phi=ph, height=h)
        r = call(c, geo.TOGC, conv, gd, s=s)
        for _, n, v in variants(p, r):
            if n == 'Ok':
                judge('geodetic to geocentric', [n for _, n in scalars(v.f[0])], 1e-6, 'm', c.where(geo.TOGC), Ctx(), over=ph)
        z = geo.E + 'Geodetic::zenith'
        judge('zenith', [n for _, n in scalars(call(c, z, gd, s=s))], 1e-14, '', c.where(z))
    c.attempt('geodetic to geocentric', geo.TOGC, place)

    def degrees():
        k = '<%sGeodetic as std::convert::From<%sGeodetic360>>::from' % (geo.E, geo.E)
        r = call(c, k, geo.struct(p, 'Geodetic360', lon=fvar('lon', -180.0, 180.0), lat=fvar('lat', -90.0, 90.0), height=fvar('h', -1e4, 1e8)))
        judge('degrees to radians', [get(p, r, n) for n in ('elong', 'phi')], 1e-14, 'rad', c.where(k))
        k2 = '<%sGeodetic360 as std::convert::From<%sGeodetic>>::from' % (geo.E, geo.E)
        q = call(c, k2, geo.struct(p, 'Geodetic', elong=fvar('el', -3.14, 3.14), phi=fvar('ph', -1.57, 1.57), height=fvar('h', -1e4, 1e8)), alarms=False)
        judge('radians to degrees', [get(p, q, n) for n in ('lon', 'lat')], 1e-12, 'deg', c.where(k2))
        judge('degrees to radians: height', [get(p, r, 'height')], 0.0, 'm', c.where(k))
    c.attempt('degrees to radians', None, degrees)

    def fraction():
        k = CAL + 'HMS::to_fraction_of_day'
        r = call(c, k, geo.struct(p, 'calendar::HMS', hour=N.isym('hour', 0, 23), minute=N.isym('minute', 0, 59), second=fvar('second', 0.0, 60.0)))
        judge('fraction of day', [collapse(r)], 1e-14, 'd', c.where(k))
    c.attempt('fraction of day', CAL + 'HMS::to_fraction_of_day', fraction)

    def sun():
        X_, K = 'tofas_extras.lib', 'tofas_extras::sun_angle::SunAngleCalculator::'
        P = c.prog(X_)
        s = Interp(P, opaque=hook)
        d, hms = civil(P, s)
        pos = geo.struct(P, 'ellipsoid::Geodetic360', **{n: fvar(n, -180.0, 180.0) for n in ('lon', 'lat', 'height')})
        calc = call(c, K + 'new', geo.struct(P, 'sun_angle::SunAngleParameters', time=hms, position=pos, **d), prog=X_, s=s, alarms=False)
        r = call(c, K + 'compute', calc, fvar('delta_s', -1e7, 1e7), prog=X_, s=s, alarms=False)
        part = lambda n: [v for _, v in scalars(get(P, r, n))]  # noqa
        w = c.where(K + 'compute', X_)
        earth, sun_e = part('earth'), part('sun_e')
        m = [n for _, n in scalars(call(c, F + 'celestial_to_terrestrial', get(P, r, 'tt'), get(P, r, 'ut1'), *[N.fc(x * N.cval(collapse(constant(c, 'tofas::common::AS2R')))) for x in (0.0349282, 0.4833163)], prog=X_, alarms=False))]
        cx = Ctx()
        for n in earth:
            cx.refine(n, (-1.1, 1.1, False))
        for n in m:
            cx.refine(n, (-1.0, 1.0, False))
        judge('Sun position for a given Earth position and frame', sun_e, 1e-2, 'm', w, cx, known=earth + m)
        # the angle for a given direction of the Sun and of the zenith
        below, seen, roots = set(sun_e), set(), []

        def go(n):
            if n in below:
                return True
            if n in seen:
                return n in hit
            seen.add(n)
            k = any([go(a) for a in n.args])
            if k:
                hit.add(n)
            if n.op == 'fsqrt':
                roots.append((n, k))
            return k
        hit = set()
        sza = part('sza')
        for n in sza:
            go(n)
        cx = Ctx()
        for n in sun_e:
            cx.refine(n, (-1.6e11, 1.6e11, False))
        for n, k in roots:
            cx.refine(n, (1.4e11, 1.6e11, False) if k else (.999, 1.001, False))
        judge('zenith angle for given directions', sza, 1e-6, 'rad', w, cx, known=sun_e)
    c.attempt('Sun angle', 'tofas_extras::sun_angle::SunAngleCalculator::compute', sun)
    c.notes['rule'] = 'rounding of every operation accumulated to the result (standard model, libm within 1 ulp), with absolute and relative bounds over intervals'


if __name__ == '__main__':
    main('C30', body, floor=60)
