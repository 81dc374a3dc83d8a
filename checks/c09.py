"""C09: Earth rotation angle and angle normalisation."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from chk import *  # noqa

TP = 6.283185307179586
MAXF = float.fromhex('0x1.fffffffffffffp1023')


def inturn(c, name, n, where):
    iv = Ctx().iv(n)
    c.ob('%s: not NaN for a finite angle' % name, not iv[2], 'range %r' % (iv,), where)
    c.ob('%s: at least zero' % name, iv[0] >= 0, 'lower bound %r' % iv[0], where)
    c.ob('%s: strictly below one turn' % name, iv[1] < TP, 'upper bound %r' % iv[1], where)


def turn(cx, r):
    """every value of the result, branch by branch, next to zero or to a turn"""
    if r.op == 'ite':
        d = cx.decide(r.args[0])
        return all(turn(y, x) for y, x in ((cx.assume(r.args[0], True), r.args[1]), (cx.assume(r.args[0], False), r.args[2])) if y is not None) \
            if d is None else turn(cx, r.args[1 if d else 2])
    v = cx.iv(r)
    return not v[2] and (v[0] >= 0 and v[1] <= 8e-15 or v[0] >= TP - 8e-15 and v[1] <= N.prv(TP))


def body(c):
    key = 'tofas::common::anp'

    def anp():
        a = fvar('a', -MAXF, MAXF)
        r = collapse(call(c, key, a))
        inturn(c, 'anp', r, c.where(key))
        A = Alg()
        eq(c, 'anp: congruent to its argument modulo a turn', A, r, X(A, A.nf(a)), c.where(key), mod=True)
        # what rounding does next to a whole turn: the result stays next to the same direction
        for k, (lo, hi) in enumerate([(-4e-16, -1e-17), (-1e-17, -1e-300), (-1e-15, -4.5e-16), (0.0, 1e-15)] +
                                     [(f(x), f(x)) for x in (TP, -TP, 2 * TP, -2 * TP) for f in (N.prv, float, N.nxt)]):
            cx = Ctx()
            cx.refine(a, (lo, hi, False))
            v = cx.iv(r)
            near = lambda lo, hi: v[0] >= lo and v[1] <= hi  # noqa
            c.ob('anp: %r to %r stays next to the positive axis' % (lo, hi), not v[2] and (near(0.0, 8e-15) or near(TP - 8e-15, N.prv(TP)) or turn(cx, r)),
                 'range %r' % (v,), c.where(key))
    c.attempt(key, key, anp)
    key2 = 'tofas::earth::rotation_angle'

    def era():
        u1, u2 = fvar('u1'), fvar('u2')
        r = collapse(call(c, key2, [u1, u2]))
        inturn(c, 'rotation_angle', r, c.where(key2))
        # UT1 = 2451545 + x + y with the day number in the first or in the second part
        for i, (p, q) in enumerate(((u1, u2), (u2, u1))):
            A = Alg()
            x, y = sym(A, 'x'), sym(A, 'y')
            A.bind = {p: (x + 2451545).p, q: y.p}
            want = (con(A, '0.7790572732640') + (x + y) * D('1.00273781191135448')) * con(A, TURN)
            eq(c, 'rotation_angle: IAU 2000 law modulo a turn, day number in part %d' % (i + 1), A, r, want, c.where(key2), mod=True, tol=D('4e-16'))
    c.attempt(key2, key2, era)


if __name__ == '__main__':
    main('C09', body, floor=9)
