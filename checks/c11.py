"""C11: celestial-to-terrestrial = polar motion x Earth rotation x celestial-to-CIO."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import iau
from chk import *  # noqa

F = 'tofas::frames::'
ERA, PNM, CIO = 'tofas::earth::rotation_angle', F + 'precession_nutation', 'tofas::locator::cio'
C2I = F + 'celestial_to_intermediate'


def polar(xp, yp, sp):
    return matmul(matmul(rot(0, -yp), rot(1, -xp)), rot(2, sp))


def c2ixys(A, x, y, s):
    r2 = x * x + y * y
    e = (con(A, 1) - r2.zero()) * atan2(y, x)
    d = (r2 / (con(A, 1) - r2)).sqrt().atan()
    return matmul(matmul(rot(2, -(e + s)), rot(1, d)), rot(2, e))


def body(c):
    p = c.prog()
    tt, ut = [fvar('tt1'), fvar('tt2')], [fvar('ut1'), fvar('ut2')]
    xp, yp, sp = fvar('xp', -1, 1), fvar('yp', -1, 1), fvar('sp', -1, 1)
    x, y, s0 = fvar('x', -.7, .7), fvar('y', -.7, .7), fvar('s', -7, 7)
    m = [fvar('m%d' % i, -2, 2) for i in range(9)]
    n = [fvar('n%d' % i, -2, 2) for i in range(9)]
    era = fvar('era', -7, 7)
    V = lambda A, v: X(A, A.nf(v))  # noqa
    mat = lambda A, v: [[V(A, a) for a in v[i:i + 3]] for i in (0, 3, 6)]  # noqa

    def go(name, key, args, want, cut=None):
        def one():
            s = Interp(p)
            r = call(c, key, *args, s=s)
            zero = {x: {}, y: {}}
            for what, bind in (('', {}), (' when X and Y are zero', zero if x in args else None)):
                if bind is None:
                    continue
                A = Alg(bind=bind, cut=cut)
                iau.compare(c, name + what, A, r, want(A), c.where(key))
        c.attempt(name, key, one)

    def facts(A, X_, Y_):
        r2 = X_ * X_ + Y_ * Y_
        if r2.p:
            A.fact(r2.p, '+0')
        return X_, Y_

    def c2i(A, X_, Y_, S_):
        facts(A, X_, Y_)
        return c2ixys(A, X_, Y_, S_)

    go('polar_motion_matrix', 'tofas::earth::polar_motion_matrix', [xp, yp, sp],
       lambda A: polar(V(A, xp), V(A, yp), V(A, sp)))
    go('xy_from_bpn', F + 'xy_from_bpn', [m], lambda A: [V(A, m[6]), V(A, m[7])])
    go('celestial_to_intermediate_from_xys', F + 'celestial_to_intermediate_from_xys', [x, y, s0],
       lambda A: c2i(A, V(A, x), V(A, y), V(A, s0)))
    go('celestial_to_terrestrial_from_cio_components', F + 'celestial_to_terrestrial_from_cio_components', [m, era, n],
       lambda A: matmul(mat(A, n), matmul(rot(2, V(A, era)), mat(A, m))))

    # the parts computed by the public routines appear as they are in the composite ones
    def parts(x_, y_):
        """the locator for these coordinates, as a node"""
        return collapse(call(c, CIO, tt, x_, y_))

    def withxy():
        sn = parts(x, y)
        go('celestial_to_intermediate_with_bpn_and_xy', F + 'celestial_to_intermediate_with_bpn_and_xy', [tt, x, y],
           lambda A: c2i(A, V(A, x), V(A, y), V(A, sn)), {sn: 's'})
        sm = parts(m[6], m[7])
        go('celestial_to_intermediate_with_bpn', F + 'celestial_to_intermediate_with_bpn', [tt, m],
           lambda A: c2i(A, V(A, m[6]), V(A, m[7]), V(A, sm)), {sm: 's'})
    c.attempt('celestial_to_intermediate_with_bpn', CIO, withxy)

    def whole():
        pn = [v for _, v in scalars(call(c, PNM, tt))]
        sn = parts(pn[6], pn[7])
        cut = {pn[6]: 'X', pn[7]: 'Y', sn: 's'}
        c.ob('precession_nutation depends on the date', len(cut) == 3, 'the pole coordinates are the same expression', c.where(PNM))
        go('celestial_to_intermediate', C2I, [tt], lambda A: c2i(A, V(A, pn[6]), V(A, pn[7]), V(A, sn)), cut)
        ci = [v for _, v in scalars(call(c, C2I, tt))]
        er = collapse(call(c, ERA, ut))
        cut2 = {v: 'c2i%d' % i for i, v in enumerate(ci)}
        cut2[er] = 'era'
        go('celestial_to_terrestrial', F + 'celestial_to_terrestrial', [tt, ut, xp, yp],
           lambda A: matmul(polar(V(A, xp), V(A, yp), con(A, 0)), matmul(rot(2, V(A, er)), mat(A, ci))), cut2)
    c.attempt('celestial_to_terrestrial', PNM, whole)


if __name__ == '__main__':
    main('C11', body, floor=10)
