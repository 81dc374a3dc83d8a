"""C25: the geodetic round trip is accurate everywhere near the Earth: Taylor models with rounding over a cover of the positions."""
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import geo
import tm
from chk import *  # noqa

ANGLE, LENGTH = 1e-9, 1e-4
H = (-1e4, 1e6)


def charts(n):
    """kind, interval of the distance from the equator or from the pole"""
    for kind, first in (('equator', [1e-60]), ('pole', [6e-17, 1e-15])):
        e = first + [math.pi / 4 * i / n for i in range(1, n + 1)]
        for a, b in zip(e, e[1:]):
            yield kind, a, b * (1 + 1e-15)


def body(c):
    p = c.prog()
    w = c.where(geo.TOGD)

    def setup(phi):
        s = Interp(p)
        conv = geo.converter(c, s, N.fc(6378137.0), N.fc(1.0 / 298.257223563))
        lam, h = fvar('elong', -1e6, 1e6), fvar('height', *H)
        gd = geo.struct(p, 'ellipsoid::Geodetic', elong=lam, phi=phi, height=h)
        r = call(c, geo.TOGC, conv, gd, s=s)
        out = []
        for cx, n, v in variants(p, r):
            if n == 'Ok':
                xyz = v.f[0]
                gd2 = call(c, geo.TOGD, conv, xyz, s=s)
                out.append([collapse(get(p, gd2, k)) for k in ('elong', 'phi', 'height')])
        if len(out) != 1:
            raise KeyError('%d successful outcomes of geodetic_to_geocentric' % len(out))
        return lam, h, out[0], succeeds(p, r)

    def succeeds(p, v):
        """condition for the Ok outcome as a list of (condition, value)"""
        l = []
        while v.__class__ is IteVal:
            ok = [any(n == 'Ok' for _, n, _ in variants(p, x)) for x in (v.a, v.b)]
            if all(ok):
                raise KeyError('several successful outcomes')
            l.append((v.c, ok[0]))
            v = v.a if ok[0] else v.b
        return l

    def one(x):
        """one box; halved as long as it is not decided"""
        name, kind, sg, lo, hi, h0, h1 = x
        todo, cnt = [(lo, hi, 0)], 0
        while todo:
            lo, hi, depth = todo.pop()
            n, bad = box(name, kind, sg, lo, hi, h0, h1)
            if not bad or kind == 'zero':
                cnt += n
            elif depth < 14:
                m = math.sqrt(lo * hi) if hi > 4 * lo else (lo + hi) / 2
                todo += [(m, hi, depth + 1), (lo, m * (1 + 1e-15), depth + 1)]
                continue
            if bad:
                return cnt + n, bad
        return cnt, []

    def box(name, kind, sg, lo, hi, h0, h1):
        phi = fvar('phi', -math.pi / 2, math.pi / 2) if kind != 'zero' else N.fc(0.0)
        lam, hn, out, conds = setup(phi)
        ch = tm.Chart(lo, hi)
        one_ = tm.TM.const(1)
        if kind == 'zero':
            co, si, ph = tm.V(0, one_), tm.ZERO, tm.ZERO
        else:
            s, k = sinc(ch)
            if kind == 'equator':
                co, si, ph = tm.V(0, k), tm.V(1, s), tm.V(1, one_)
            else:
                co, si, ph = tm.V(1, s), tm.V(0, k), tm.V(0, tm.TM.const(math.pi / 2, 1e-16) - ch.u)
        if sg < 0:
            si, ph = ch.neg(si), ch.neg(ph)
        hv = tm.V(0, tm.TM.var((h0 + h1) / 2, (h1 - h0) / 2, 1))
        bad, cnt, todo = [], 0, [{}]
        t = '%s %.3g to %.3g rad from the %s, height %g to %g m' % ('south,' if sg < 0 else 'north,', lo, hi, name, h0, h1)
        while todo:
            choice = todo.pop()
            if len(choice) > 8:
                raise tm.Fail('too many undecided conditions')
            try:
                e = tm.Eval(ch, phi, ph, co, si, {hn: hv}, lam, choice)
                for cond, val in conds:
                    if e.truth(cond) != val:
                        bad.append((t, 'geodetic_to_geocentric fails'))
                C, S, err = e.angle(out[1])
                q = ch.div(ch.add(ch.mul(S, co), ch.neg(ch.mul(C, si))), ch.add(ch.mul(C, co), ch.mul(S, si)))
                if ch.sign(ch.add(ch.mul(C, co), ch.mul(S, si))) != '+':
                    bad.append((t, 'the latitude comes back in another quadrant'))
                a = max(map(abs, ch.range(q))) + err
                d = max(map(abs, ch.range(ch.add(e.val(out[2]), ch.neg(hv)))))
                if not a <= ANGLE:
                    bad.append((t, 'the latitude comes back within %.3g rad only' % a))
                if not d <= LENGTH:
                    bad.append((t, 'the height comes back within %.3g m only' % d))
                l = longitude(e, out[0], lam)
                if not l <= ANGLE:
                    bad.append((t, 'the longitude comes back within %.3g rad only' % l))
                cnt += 3
            except tm.Fork as f:
                todo += [{**choice, f.node: v} for v in (True, False)]
            except tm.Fail as f:
                bad.append((t, 'not bounded: %s' % f))
                cnt += 1
        return cnt, bad

    def longitude(e, n, lam):
        while n.op == 'fite':
            n = n.args[1] if e.truth(n.args[0]) else n.args[2]
        if n.op != 'fatan2':
            raise tm.Fail('longitude by operation %s' % n.op)
        # (x, y) = r (cos, sin) with r > 0
        A, names = e.algebra(n)
        y, x = X(A, A.nf(n.args[0])), X(A, A.nf(n.args[1]))
        la = X(A, A.nf(lam))
        r = (x * la.cos() + y * la.sin()).p
        if (y * la.cos() - x * la.sin()).p or not all(at in names for m in r for at, _ in m):
            raise tm.Fail('the longitude comes back as another one')
        if e.c.sign(e.poly(r, names)) != '+':
            raise tm.Fail('the longitude comes back half a turn off')
        return e.rel(n.args[0]) + e.rel(n.args[1]) + 1e-15

    items = []
    nh = 24 if c.tier == 'thorough' else 12
    hs = [H[0] + (H[1] - H[0]) * i / nh for i in range(nh + 1)]
    for kind, lo, hi in charts(24 if c.tier == 'thorough' else 12):
        for sg in (1, -1):
            items += [(kind, kind, sg, lo, hi, hs[i], hs[i + 1]) for i in range(nh)]
    items += [('equator', 'zero', 1, 0.0, 1.0, hs[i], hs[i + 1]) for i in range(nh)]
    n, bad = spread(c, items, one)
    for t, e in bad[:20]:
        c.ob('round trip: ' + t, False, e, w)
    c.ob('all of the cover', n >= 3 * len(items), '%d obligations' % n, w)
    c.notes['cover'] = '%d boxes of latitude and height, both hemispheres, every longitude; Taylor models of degree %d' % (len(items), tm.DEG)


def sinc(ch):
    """sin u / u and cos u"""
    u2 = ch.u * ch.u
    s, k = tm.TM.const(0), tm.TM.const(0)
    n = 10
    for i in reversed(range(n)):
        s = s * u2 + tm.TM.const((-1) ** i / math.factorial(2 * i + 1))
        k = k * u2 + tm.TM.const((-1) ** i / math.factorial(2 * i))
    e = ch.u1 ** (2 * n)
    return s.err(e / math.factorial(2 * n + 1) + 1e-16), k.err(e / math.factorial(2 * n) + 1e-16)


if __name__ == '__main__':
    main('C25', body, floor=1)
