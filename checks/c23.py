"""C23: finite dates and angles give finite, bounded results."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import epv
from chk import *  # noqa

F, PN = 'tofas::frames::', 'tofas::frames::PrecessionNutation'
J2000, CENTURY = D('2451545'), D('36525')


def clocks(A, u1, u2, roots):
    """the first nodes of the graph that are an affine function of the sum of the two parts: node -> (slope, offset)"""
    out, seen, dep = {}, set(), {}

    def size(n):
        """how many leaves, 1000 when many"""
        if n not in dep:
            dep[n] = 1 if n in (u1, u2) else min(1000, sum(size(a) for a in n.args)) if n.args else 0
        return dep[n]

    def go(n):
        if n in seen:
            return
        seen.add(n)
        if n.kind == 'f' and 2 <= size(n) <= 12:
            try:
                P = A.nf(n)
            except (Inexact, TooBig):
                P = {}
            u, v = (next(iter(A.nf(x))) for x in (u1, u2))
            if set(P) <= {(), u, v} and u in P and P.get(v) == P[u]:
                out[n] = (P[u], P.get((), ZERO))
        for a in n.args:
            go(a)
    for r in roots:
        go(r)
    return {n: v for n, v in out.items() if not any(a in out for a in n.args)}


def within(ck, lo, hi):
    """the context where the date is between lo and hi centuries after J2000"""
    cx = Ctx()
    for n, (a, b) in ck.items():
        e = [float(a * (J2000 + CENTURY * x) + b) for x in (lo, hi)]
        m = 1e-9 * max(1.0, abs(e[0]), abs(e[1]))
        cx.refine(n, (min(e) - m, max(e) + m, False))
    return cx


def fin(iv):
    return not iv[2] and -INF < iv[0] and iv[1] < INF


def body(c):
    p = c.prog()
    date = [fvar('date1', -1e7, 1e7), fvar('date2', -1e7, 1e7)]
    other = [fvar('ut1', -1e7, 1e7), fvar('ut2', -1e7, 1e7)]
    ang = lambda n: fvar(n, -100.0, 100.0)  # noqa
    unit = lambda n: [fvar('%s%d' % (n, i), -1.0, 1.0) for i in range(9)]  # noqa
    x, y, s = fvar('x', -.7, .7), fvar('y', -.7, .7), fvar('s', -7, 7)
    bpn = unit('m')[:6] + [x, y, fvar('m8', -1.0, 1.0)]
    A = Alg()
    cells = [(k, k + 1) for k in range(-100, 100)]

    def go(name, key, args, bounds=(), century=False):
        """every number of the result is finite in every cell of dates; bounds: (path, limit)"""
        def one():
            r = call(c, key, *args)
            w = c.where(key)
            leaves = [(q, n) for q, n in numbers(r)]
            roots = [n for _, n in leaves]
            c.ob('%s: has results' % name, leaves, 'no number in the result', w)
            ck = {}
            for a in (date, other):
                if any(a is z for z in args):
                    ck.update(clocks(A, a[0], a[1], roots))
            bad, worst = {}, {}
            for lo, hi in cells if ck else [(0, 0)]:
                cx = within(ck, lo, hi)
                for q, n in leaves:
                    iv = cx.iv(n)
                    c.bulk += 1
                    if not fin(iv):
                        bad.setdefault(q, 'between %d and %d centuries from J2000 it may be %s' % (lo, hi, 'NaN' if iv[2] else 'infinite') if ck else
                                       'may be %s' % ('NaN' if iv[2] else 'infinite'))
            c.bulk -= len(bad)
            c.ob('%s: every number is finite' % name, not bad, '; '.join('%s %s' % z for z in list(bad.items())[:3]), w)
            lims = [(-1, 0), (0, 1)] if century else cells
            for path, lim, unit_ in bounds:
                for q, n in numbers(get(p, r, path) if path else r):
                    top = 0.0
                    for lo, hi in lims if ck else [(0, 0)]:
                        iv = within(ck, lo, hi).iv(n)
                        top = max(top, abs(iv[0]), abs(iv[1])) if fin(iv) else INF
                    c.ob('%s: %s at most %g %s' % (name, (path + q) or 'result', lim / unit_[0], unit_[1]), top <= lim, 'up to %g' % (top / unit_[0]), w)
            return ck
        return c.attempt(name, key, one)

    def numbers(r):
        out = []
        for q, n in scalars(r):
            if isinstance(n, N.Node):
                if n.kind == 'f':
                    out.append((q, n))
            elif n.__class__ is IteVal:
                pass              # an optional warning has no number
        return out
    sec = (4.84813681109536e-06, 'arc-seconds')
    one = (1.0, '')
    ck = go('nutation', F + 'nutation', [date], [('', 25 * sec[0], sec)])
    c.ob('the elapsed time is found in the expression graph', bool(ck), 'no node is a function of the sum of the two parts', c.where(F + 'nutation'))
    go('precession_rate', F + 'precession_rate', [date], [('', 60 * sec[0], sec)])
    go('mean_obliquity', F + 'mean_obliquity', [date], [('', 0.5, (1.0, 'rad'))])
    go('frame_bias', F + 'frame_bias', [], [('', 0.1 * sec[0], sec)])
    go('bias_and_precession', F + 'bias_and_precession', [date])
    go('precession_nutation', F + 'precession_nutation', [date])
    go('PrecessionNutation from TT', '<%s as std::convert::From<tofas::time::TT>>::from' % PN, [date])
    go('PrecessionNutation::from_tt_with_nutation', PN + '::from_tt_with_nutation', [date, ang('dpsi'), ang('deps')])
    go('nutation_matrix', F + 'nutation_matrix', [ang('epsa'), ang('dpsi'), ang('deps')])
    go('celestial_to_intermediate', F + 'celestial_to_intermediate', [date])
    go('celestial_to_intermediate_with_bpn', F + 'celestial_to_intermediate_with_bpn', [date, bpn])
    go('celestial_to_intermediate_with_bpn_and_xy', F + 'celestial_to_intermediate_with_bpn_and_xy', [date, x, y])
    go('celestial_to_intermediate_from_xys', F + 'celestial_to_intermediate_from_xys', [x, y, s])
    go('celestial_to_terrestrial', F + 'celestial_to_terrestrial', [date, other, ang('xp'), ang('yp')])
    go('celestial_to_terrestrial_from_cio_components', F + 'celestial_to_terrestrial_from_cio_components', [unit('m'), ang('era'), unit('n')])
    go('xy_from_bpn', F + 'xy_from_bpn', [bpn])
    go('rotation_angle', 'tofas::earth::rotation_angle', [other], [('', 6.283185307179586, (1.0, 'rad'))])
    go('polar_motion_matrix', 'tofas::earth::polar_motion_matrix', [ang('xp'), ang('yp'), ang('sp')])
    go('cio', 'tofas::locator::cio', [date, x, y])
    au, day = (1.0, 'AU'), (1.0, 'AU/day')
    go('ephemeris', epv.KEY, [date], [(f + '.p', 1.03, au) for f in ('heliocentric', 'barycentric')] +
       [(f + '.v', 0.02, day) for f in ('heliocentric', 'barycentric')], century=True)


if __name__ == '__main__':
    main('C23', body, floor=60)
