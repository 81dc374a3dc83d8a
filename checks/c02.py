"""C02: to_julian is the exact day count; decided for every month of the 400-year cycle with the cycle and the day symbolic."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from chk import *  # noqa
import cal

KEY = 'tofas::calendar::GregorianDate::to_julian'
KEY2 = 'tofas::calendar::GregorianDateHMS::to_julian'


def body(c):
    p = c.prog()
    w = c.where(KEY)

    def cell(x):
        title, r, a, b = x
        bad = []
        for mo in range(1, 13):
            N.reset()
            t = '%s, month %d' % (title, mo)
            d = N.isym('day', 1, cal.ndays(r, mo))
            y = cal.year(r, a, b)
            s = Interp(p)
            v = s.run(KEY, [Ref(s.alloc(cal.mkdate(p, y, N.ic(mo), d)))])
            c.steps += s.steps
            c.fns |= set(s.entered)
            bad += [(t, 'may panic: %s' % (al,)) for al in s.alarms]
            p1, p2 = [n for _, n in scalars(v)]
            A = Alg()
            want = A.add(A.nf(N.i2f(N.iadd(N.iscale(N.isym('q', a, b), 146097), d))), A.const(D(cal.mjd0(r, mo))))
            e = A.differ(A.nf(p1), A.const(D('2400000.5')))
            if e:
                bad.append((t, 'first part: ' + A.showbad(e)))
            e = A.differ(A.nf(p2), want)
            if e:
                bad.append((t, 'second part is not the day count: ' + A.showbad(e)))
            if p2.op != 'i2f':
                lo, hi, nan = Ctx().iv(p2)
                if nan or max(abs(lo), abs(hi)) >= 2 ** 53 or not exact(p2):
                    bad.append((t, 'the day number is not computed exactly'))
        return 36, bad

    def exact(n):
        """additions, subtractions and products of integers below 2^53"""
        if n.op == 'i2f':
            return True
        if n.op == 'fc':
            return N.cval(n) == int(N.cval(n))
        lo, hi, nan = Ctx().iv(n)
        if nan or max(abs(lo), abs(hi)) >= 2 ** 53:
            return False
        return n.op in ('fadd', 'fsub', 'fmul', 'fneg') and all(exact(x) for x in n.args)
    n, bad = spread(c, cal.years(), cell)
    for t, e in bad[:40]:
        c.ob(t, False, e, w)
    c.ob('all months of the partition', n == 800 * 36, '%d obligations, %d expected' % (n, 800 * 36), w)
    c.notes['cells'] = 800 * 12
    c.notes['partition'] = 'year residue mod 400 and sign x month; the 400-year cycle number and the day are symbolic'

    def hms():
        s = Interp(p)
        s2 = s
        ty = p.types[p.fns[KEY2]['body']['locals'][1]]['e']
        v = s.sym(ty, 'x')
        date, t = get(p, v, 'date'), get(p, v, 'hms')
        r = call(c, KEY2, v, s=s, alarms=False)
        r0 = call(c, KEY, date, s=s2, alarms=False)
        A = Alg()
        a, b = [X(A, A.nf(n)) for _, n in scalars(r)]
        a0, b0 = [X(A, A.nf(n)) for _, n in scalars(r0)]
        h, m, sec = [X(A, A.nf(N.i2f(get(p, t, k)) if get(p, t, k).kind == 'i' else get(p, t, k))) for k in ('hour', 'minute', 'second')]
        eq(c, 'GregorianDateHMS::to_julian: first part', A, a, a0, c.where(KEY2))
        eq(c, 'GregorianDateHMS::to_julian: second part', A, b, b0 + (h * 3600 + m * 60 + sec) / 86400, c.where(KEY2))
    c.attempt('GregorianDateHMS::to_julian', KEY2, hms)


if __name__ == '__main__':
    main('C02', body, floor=3)
