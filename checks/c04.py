"""C04: fraction of day and hours, minutes, seconds denote the same time of day."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import geo
from chk import *  # noqa

FROM = 'tofas::calendar::HMS::from_fraction_of_day'
TO = 'tofas::calendar::HMS::to_fraction_of_day'
NEW = 'tofas::calendar::HMS::new'


def num(n):
    return N.i2f(n) if n.kind == 'i' else n


def exactrest(n):
    """whole numbers taken off a single quantity: every difference is a multiple of its last place and smaller than it"""
    def whole(x):
        if x.op == 'i2f':
            return True
        if x.op == 'fc':
            return N.cval(x) == int(N.cval(x))
        return x.op in ('fmul', 'fadd', 'fsub') and all(whole(y) for y in x.args)

    def rest(x):
        while x.op == 'fsub' and whole(x.args[1]):
            x = x.args[0]
        return x
    return rest(n) is not n


def body(c):
    p = c.prog()
    w = c.where(FROM)

    def oks(r, cx=None):
        return [(cy, v.f[0]) for cy, n, v in variants(p, r, cx) if n == 'Ok']

    def identity():
        f = fvar('f', 0.0, 1.0)
        r = call(c, FROM, f)
        A = Alg()
        F = X(A, A.nf(f))
        got = oks(r)
        c.ob('every fraction in [0,1] is accepted', len(got) == 1 and {n for _, n, _ in variants(p, r)} == {'Ok'}, 'some fraction in [0,1] is rejected', w)
        for _, v in got:
            h, m, s = [X(A, A.nf(num(get(p, v, k)))) for k in ('hour', 'minute', 'second')]
            eq(c, 'hour, minute and second denote 86400 f seconds', A, h * 3600 + m * 60 + s, F * 86400, w, boundary=False)
            eq(c, 'the hour is the whole number of hours', A, h, (F * 24).floor(), w, boundary=False)
            eq(c, 'the minute is the whole number of minutes past the hour', A, m, (F * 1440).floor() - (F * 24).floor() * 60, w, boundary=False)
            eq(c, 'the second is the rest of the minute', A, s, F * 86400 - (F * 1440).floor() * 60, w, boundary=False)
    c.attempt('the time of day', FROM, identity)

    def bounds():
        for t, lo, hi, hmax in (('f in [0,1)', 0.0, N.prv(1.0), 23), ('f in [0,1]', 0.0, 1.0, 24)):
            r = call(c, FROM, fvar('f', lo, hi))
            for cx, v in oks(r):
                for k, a, b in (('hour', 0, hmax), ('minute', 0, 59)):
                    l, h = cx.iv(get(p, v, k))[:2]
                    c.ob('%s: %s between %d and %d' % (t, k, a, b), l >= a and h <= b, 'in [%r, %r]' % (l, h), w)
                l, h, nan = cx.iv(get(p, v, 'second'))
                if not (l >= 0 and h <= 60) and exactrest(get(p, v, 'second')):
                    l, h = 0, 60        # 86400 f - 60 floor(1440 f) by the identity above, computed without rounding
                c.ob('%s: second in [0,60]' % t, l >= 0 and h <= 60 and not nan, 'in [%r, %r]%s' % (l, h, ' or NaN' if nan else ''), w)
    c.attempt('bounds of the fields', FROM, bounds)

    def reject():
        nan = N.fc(float('nan'))
        for t, x in (('below 0', fvar('f', -INF, -5e-324)), ('above 1', fvar('f', N.nxt(1.0), INF)), ('NaN', nan)):
            r = call(c, FROM, x)
            got = set()
            for cx, n, v in variants(p, r):
                got |= {n} if n == 'Ok' else {m for _, m, _ in variants(p, v.f[0], cx)}
            c.ob('a fraction %s is rejected with BadFract' % t, got == {'BadFract'}, 'outcome %s' % sorted(got), w)
        s = Interp(p)
        call(c, FROM, N.fs('f', -INF, INF, True), s=s, alarms=False)
        c.ob('no fraction makes it panic', not s.alarms, '%s' % s.alarms[:2], w)
    c.attempt('rejection', FROM, reject)

    def back():
        h, m, s = N.isym('hour', 0, 255), N.isym('minute', 0, 255), fvar('second')
        st = Interp(p)
        r = call(c, TO, geo.struct(p, 'calendar::HMS', hour=h, minute=m, second=s), s=st)
        A = Alg()
        H, M, S = [X(A, A.nf(num(x))) for x in (h, m, s)]
        eq(c, 'to_fraction_of_day is (3600 h + 60 m + s)/86400', A, r, (H * 3600 + M * 60 + S) / 86400, c.where(TO))
        v = call(c, NEW, h, m, s)
        c.ob('HMS::new keeps the three numbers', [get(p, v, k) for k in ('hour', 'minute', 'second')] == [h, m, s], 'a field is changed', c.where(NEW))
    c.attempt('back', TO, back)


if __name__ == '__main__':
    main('C04', body, floor=17)
