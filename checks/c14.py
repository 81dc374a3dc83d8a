"""C14: Earth velocity is the time derivative of the Earth position, per day."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import epv
from chk import *  # noqa


def body(c):
    p = c.prog()
    u1, u2 = fvar('tdb1'), fvar('tdb2')

    def one():
        r = call(c, epv.KEY, [u1, u2])
        A = Alg()
        epv.bind(A, u1, u2)
        t = A.atom('sym', 't')
        for name in ('heliocentric', 'barycentric'):
            pos, vel = epv.comps(p, r, name + '.p'), epv.comps(p, r, name + '.v')
            for i in range(3):
                # t is in Julian years of 365.25 days
                d = A.scale(A.diff(A.nf(pos[i]), t), ONE / D('365.25'))
                eq(c, '%s velocity, component %d: derivative of the position per day' % (name, i), A, vel[i], d, c.where(epv.KEY))
    c.attempt('Earth velocity', epv.KEY, one)


if __name__ == '__main__':
    main('C14', body, floor=6)
