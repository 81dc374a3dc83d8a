"""C01: GregorianDate::new accepts exactly the valid dates; decided for every cell of a partition of all (year, month, day)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from chk import *  # noqa
from cal import LO, HI, YMIN, datefields, ndays, within
import cal

KEY = 'tofas::calendar::GregorianDate::new'
def outcome(p, r, cx):
    """set of outcomes under a context"""
    out = set()
    for cy, n, v in variants(p, r, cx):
        if n == 'Ok':
            out.add(('Ok', tuple(x.id if isinstance(x, N.Node) else None for x in v.f[0].f)))
        else:
            out |= {('Err', m) for _, m, _ in variants(p, v.f[0], cy)}
    return out


def body(c):
    p = c.prog()
    w = c.where(KEY)
    names = datefields(p)[1]

    def cell(x):
        title, r, a, b = x
        N.reset()
        m, d = N.isym('month', LO, HI), N.isym('day', LO, HI)
        y = N.isym('year', a, b) if r is None else cal.year(r, a, b)
        s = Interp(p)
        v = s.run(KEY, [y, m, d])
        c.steps += s.steps
        c.fns |= set(s.entered)
        bad = [(title, 'may panic: %s' % (al,)) for al in s.alarms]
        n = 0
        ok = tuple({'year': y, 'month': m, 'day': d}[k].id for k in names)
        root = Ctx()

        def want(cx, t, o):
            if cx is None:
                return
            got = outcome(p, v, cx)
            if got != {o}:
                bad.append(('%s, %s' % (title, t), 'gives %s, %s expected' % (sorted(str(g[1] if g[0] == 'Err' else 'Ok') for g in got), o[1] if o[0] == 'Err' else 'Ok with the three numbers')))

        if r is None:
            want(root, 'any month and day', ('Err', 'BadYear'))
            return 1, bad
        for lo, hi in ((LO, 0), (13, HI)):
            n += 1
            want(within(root, m, lo, hi), 'month in [%d,%d]' % (lo, hi), ('Err', 'BadMonth'))
        for mo in range(1, 13):
            k = ndays(r, mo)
            cm = within(root, m, mo, mo)
            for lo, hi, o in ((LO, 0, ('Err', 'BadDay')), (1, k, ('Ok', ok)), (k + 1, HI, ('Err', 'BadDay'))):
                n += 1
                want(within(cm, d, lo, hi), 'month %d, day in [%d,%d]' % (mo, lo, hi), o)
        return n, bad

    n, bad = spread(c, [('year below -4799', None, LO, YMIN - 1)] + cal.years(), cell)
    for t, e in bad[:40]:
        c.ob(t, False, e, w)
    c.ob('all cells of the partition', n == 1 + 800 * 38, '%d cells decided, %d expected' % (n, 1 + 800 * 38), w)
    c.notes['cells'] = n
    c.notes['partition'] = 'year residue mod 400 and sign x month (12, below, above) x day (below 1, valid, above); year < -4799'


if __name__ == '__main__':
    main('C01', body, floor=1)
