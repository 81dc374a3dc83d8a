"""C13: Earth position = EPV00 series of the Fortran reference."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import epv
from chk import *  # noqa


def body(c):
    p = c.prog()
    T = epv.table()
    c.notes['rows'] = sum(len(x) for x in T['tables'].values())
    u1, u2 = fvar('tdb1'), fvar('tdb2')

    def one():
        r = call(c, epv.KEY, [u1, u2])
        A = Alg()
        t = epv.bind(A, u1, u2)
        for name, want in zip(('heliocentric', 'barycentric'), epv.positions(A, T, t)):
            for i, n in enumerate(epv.comps(p, r, name + '.p')):
                eq(c, '%s position, component %d' % (name, i), A, n, want[i], c.where(epv.KEY))
    c.attempt('Earth position', epv.KEY, one)


if __name__ == '__main__':
    main('C13', body, floor=6)
