"""C12: the CIO locator series and the fundamental arguments."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import iau
from chk import *  # noqa


def body(c):
    for n in iau.FORDER:
        key = 'tofas::fundargs::' + n

        def one():
            tv = fvar('t', -1e4, 1e4)
            r = collapse(call(c, key, tv))
            A = Alg()
            t = X(A, A.nf(tv))
            w = c.where(key)
            eq(c, '%s: IERS 2003 expression%s' % (n, '' if n == 'pa03' else ' up to whole turns'), A, r, iau.fund(A, n, t), w, mod=n != 'pa03')
        c.attempt(n, key, one)
    key = 'tofas::locator::cio'

    def cio():
        u1, u2, x, y = fvar('tt1'), fvar('tt2'), fvar('x', -2, 2), fvar('y', -2, 2)
        r = collapse(call(c, key, [u1, u2], x, y))
        A = Alg()
        t = iau.date(A, u1, u2)
        eq(c, 'cio: IAU 2000 series for s', A, r, iau.cio(A, t, X(A, A.nf(x)), X(A, A.nf(y))), c.where(key))
    c.attempt('cio', key, cio)
    T = iau.table()
    c.notes['rows'] = sum(len(T['ks%d' % k]) for k in range(5))


if __name__ == '__main__':
    main('C12', body, floor=9)
