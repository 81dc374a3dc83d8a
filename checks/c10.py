"""C10: precession, nutation and bias are the IAU 2000B model."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import iau
from chk import *  # noqa

F = 'tofas::frames::'
PN = F + 'PrecessionNutation'


def body(c):
    p = c.prog()
    u1, u2 = fvar('tt1'), fvar('tt2')
    dpsi, deps, epsa = fvar('dpsi', -10, 10), fvar('deps', -10, 10), fvar('epsa', -10, 10)

    def go(fn, key, args, want, pick=None):
        def one():
            r = call(c, key, *args)
            A = Alg()
            t = iau.date(A, u1, u2)
            w = want(A, t)
            if pick:
                pick(r, A, w)
            else:
                iau.compare(c, fn, A, r, w, c.where(key))
        c.attempt(fn, key, one)
    tt = [u1, u2]
    go('nutation', F + 'nutation', [tt], lambda A, t: list(iau.nutation(A, t)))
    go('precession_rate', F + 'precession_rate', [tt], lambda A, t: list(iau.precession_rate(A, t)))
    go('mean_obliquity', F + 'mean_obliquity', [tt], iau.mean_obliquity)
    go('frame_bias', F + 'frame_bias', [], lambda A, t: iau.frame_bias(A))

    def three(r, A, w):
        for i, n in enumerate(('rb', 'rp', 'rbp')):
            iau.compare(c, 'bias_and_precession: ' + n, A, get(p, r, i), w[i], c.where(F + 'bias_and_precession'))
    go('bias_and_precession', F + 'bias_and_precession', [tt], iau.bias_precession, three)
    x = lambda A, n: X(A, A.nf(n))  # noqa
    go('nutation_matrix', F + 'nutation_matrix', [epsa, dpsi, deps],
       lambda A, t: iau.nutation_matrix(x(A, epsa), x(A, dpsi), x(A, deps)))

    def fields(key):
        def pick(r, A, w):
            have = fieldnames(p, r)
            for n in w:
                if n in have:
                    iau.compare(c, '%s: %s' % (key.split('::')[-1], n), A, get(p, r, n), w[n], c.where(key))
            c.ob('%s: dpsi is returned' % key, 'dpsi' in have, 'no field dpsi', c.where(key))
        return pick
    k = PN + '::from_tt_with_nutation'
    go('from_tt_with_nutation', k, [tt, dpsi, deps], lambda A, t: iau.pn_with(A, t, x(A, dpsi), x(A, deps)), fields(k))
    k2 = '<%s as std::convert::From<tofas::time::TT>>::from' % PN
    go('PrecessionNutation::from(TT)', k2, [tt], lambda A, t: iau.pn_with(A, t, *iau.nutation(A, t)), fields(k2))
    go('precession_nutation', F + 'precession_nutation', [tt], lambda A, t: iau.pn_with(A, t, *iau.nutation(A, t))['rbpn'])


if __name__ == '__main__':
    main('C10', body, floor=60)
