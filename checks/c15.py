"""C15: the ephemeris warns exactly outside the century around J2000."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import epv
from chk import *  # noqa


def body(c):
    p = c.prog()
    w = c.where(epv.KEY)
    u1, u2 = fvar('tdb1'), fvar('tdb2')

    def one():
        r = call(c, epv.KEY, [u1, u2])
        v = get(p, r, 'warning')
        # t in Julian years from J2000
        for name, facts, val in (('more than 100 years after J2000', [(-100, '+'), (100, '+'), (0, '+')], 1),
                                 ('more than 100 years before J2000', [(-100, '-'), (100, '-'), (0, '-')], 1),
                                 ('within 100 years after J2000', [(-100, '-'), (100, '+'), (0, '+0')], 0),
                                 ('within 100 years before J2000', [(-100, '-'), (100, '+'), (0, '-0')], 0)):
            A = Alg()
            t = epv.bind(A, u1, u2)
            for k, s in facts:
                A.fact((t + k).p, s)
            holds(c, 'warning %s: %s' % ('set' if val else 'not set', name), A, indicator(A, p, v, 'Some'), val, w)
        for y in (100, -100):
            A = Alg()
            t = epv.bind(A, u1, u2)
            A.bind = {u1: A.const(D(y) * D('365.25') + 2451545), u2: {}}
            holds(c, 'warning set: exactly %d years from J2000' % y, A, indicator(A, p, v, 'Some'), 1, w)
    c.attempt('warning', epv.KEY, one)
    for nm, val in (('NaN', float('nan')), ('infinity', INF), ('-infinity', -INF)):
        def odd():
            for i in range(2):
                a = [fvar('d'), fvar('d')]
                a[i] = N.fc(val)
                v = get(p, call(c, epv.KEY, a), 'warning')
                c.ob('warning set: part %d of the date is %s' % (i + 1, nm), all(n == 'Some' for _, n, _ in variants(p, v)),
                     'no warning for such a date', w)
        c.attempt('warning: ' + nm, epv.KEY, odd)

    def payload():
        v = get(p, call(c, epv.KEY, [u1, u2]), 'warning')
        some = [a for _, n, a in variants(p, v) if n == 'Some']
        c.ob('the warning is DateOutOfRange', some and all(n == 'DateOutOfRange' for a in some for _, n, _ in variants(p, a.f[0])),
             'another warning is reported', w)
    c.attempt('payload', epv.KEY, payload)


if __name__ == '__main__':
    main('C15', body, floor=13)
