"""C06: every time-scale conversion puts exactly its offset into the smaller part."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from chk import *  # noqa

# function, sign of the offset argument (None: the fixed 32.184 s), source, destination
CONV = [
    ('tofas::time::TAI::from_utc_delta_at', 1),
    ('<tofas::time::TT as std::convert::From<tofas::time::TAI>>::from', None),
    ('tofas::time::TDB::from_tt', 1),
    ('tofas::time::UT1::from_tt', -1),
    ('tofas::time::TT::from_ut1', 1),
]


def pair(p, v):
    """the two parts of a time-scale value"""
    l = [n for _, n in scalars(v)]
    assert len(l) == 2
    return l


def simp(n, cx):
    while n.op == 'fite':
        d = cx.decide(n.args[0])
        if d is None:
            return n
        n = n.args[1] if d else n.args[2]
    return n


def body(c):
    p = c.prog()
    for key, sign in CONV:
        def one():
            w = c.where(key)
            u1, u2, off = fvar('u1'), fvar('u2'), fvar('offset')
            r = call(c, key, [u1, u2], *([off] if sign else []))
            r1, r2 = pair(p, r)
            A = Alg()
            U1, U2 = X(A, A.nf(u1)), X(A, A.nf(u2))
            d = (X(A, A.nf(off)) * sign if sign else con(A, '32.184')) / 86400
            first = (U1 - U2).neg()
            eq(c, '%s: first part' % key, A, r1, U1 + d * first, w)
            eq(c, '%s: second part' % key, A, r2, U2 + d * (con(A, 1) - first), w)
            # the other part is the very same number, not a recomputation of it
            for cond, other, same, t in ((N.flt(u2, u1), r1, u1, 'first'), (N.flt(u1, u2), r2, u2, 'second')):
                cx = Ctx().assume(cond, True)
                o = simp(other, cx)
                c.ob('%s: %s part returned unchanged when it is the larger' % (key, t), o is same,
                     'the larger part is not returned as it is: %r' % (o,), w)
        c.attempt(key, key, one)
    # total() of every scale
    n = 0
    for it in p.d['items']:
        k = it['key']
        if k and k.startswith('tofas::time::') and k.endswith('::total'):
            n += 1

            def tot():
                u1, u2 = fvar('u1'), fvar('u2')
                r = call(c, k, [u1, u2])
                A = Alg()
                eq(c, '%s: sum of the parts' % k, A, collapse(r), X(A, A.nf(u1)) + X(A, A.nf(u2)), c.where(k))
            c.attempt(k, k, tot)
    c.ob('total() of UT1, TT, TAI and UTC exists', n >= 4, 'only %d total() functions' % n)


if __name__ == '__main__':
    main('C06', body, floor=20)
