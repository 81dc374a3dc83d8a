"""C05: delta_at gives the published TAI-UTC in force; every (year, month) interval of the published table, every fraction."""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from chk import *  # noqa
import cal
from cal import LO, HI

KEY = '<tofas::calendar::GregorianDate as tofas::delta_at::DeltaAt>::delta_at'


def body(c):
    p = c.prog()
    w = c.where(KEY)
    with open(os.path.join(HERE, 'spec', 'tai_utc.json')) as f:
        tab = json.load(f)
    c.notes['published_entries'] = len(tab)

    def leaves(v, cx):
        """(context, 'BadFract' | 'None' | 'Some', value)"""
        for cy, n, x in variants(p, v, cx):
            for cz, m, y in variants(p, x.f[0], cy):
                yield cz, m, y

    def run(year, month, day, fd):
        s = Interp(p)
        v = s.run(KEY, [Ref(s.alloc(cal.mkdate(p, year, month, day))), fd])
        c.steps += s.steps
        c.fns |= set(s.entered)
        return v, [('panic', str(a)) for a in s.alarms]

    # cells: year, months with one table entry, entry (None before 1960)
    cells = [('years before 1960', LO, 1959, LO, HI, None)]
    last = tab[-1]
    for y in range(1960, last[0] + 1):
        cut = sorted({1} | {m for yy, m, _, _ in tab if yy == y} | {13})
        for a, b in zip(cut, cut[1:]):
            e = [t for t in tab if (t[0], t[1]) <= (y, a)][-1]
            cells.append(('%d, months %d to %d' % (y, a, b - 1), y, y, a, b - 1, e))
    cells.append(('years after %d' % last[0], last[0] + 1, HI, 1, 12, last))

    def cell(x):
        title, y0, y1, m0, m1, e = x
        bad, n = [], 0
        # the drift needs the day number: month by month
        months = [(m, m) for m in range(m0, m1 + 1)] if e and e[3] else [(m0, m1)]
        for a, b in months:
            N.reset()
            n += 2
            t = title + (', month %d' % a if e and e[3] else '')
            year = N.ic(y0) if y0 == y1 else N.isym('year', y0, y1)
            month = N.ic(a) if a == b else N.isym('month', a, b)
            day = N.isym('day', LO, HI) if not (e and e[3]) else N.isym('day', 1, cal.ndays(y0, a))
            fd = fvar('fd', 0.0, 1.0)
            v, al = run(year, month, day, fd)
            bad += [(t, 'may panic: %s' % z) for _, z in al]
            want = 'None' if e is None else 'Some'
            got = list(leaves(v, Ctx()))
            if {g[1] for g in got} != {want}:
                bad.append((t, 'gives %s, %s expected' % (sorted({g[1] for g in got}), want)))
                continue
            if e is None:
                continue
            A = Alg()
            exp = con(A, e[2])
            if e[3]:
                mjd = X(A, A.nf(N.i2f(day))) + cal.mjd0(y0, a)
                exp = exp + (mjd + X(A, A.nf(fd)) - e[3][0]) * D(e[3][1])
            for cx, _, o in got:
                d = A.differ(A.nf(collapse(o.f[0])), exp.p)
                if d:
                    bad.append((t, 'not the published value: ' + A.showbad(d)))
        return n, bad
    n, bad = spread(c, cells, cell)
    for t, e in bad[:40]:
        c.ob(t, False, e, w)
    c.ob('all cells', n >= 2 * len(cells), '%d obligations' % n, w)
    c.notes['cells'] = len(cells)

    def fractions():
        nan = N.fc(float('nan'))
        for t, fd in (('below 0', fvar('fd', -INF, -5e-324)), ('above 1', fvar('fd', N.nxt(1.0), INF)), ('NaN', nan)):
            for d, y0, y1 in (('before 1960', LO, 1959), ('from 1960 on', 1960, HI)):
                v, al = run(N.isym('year', y0, y1), N.isym('month', LO, HI), N.isym('day', LO, HI), fd)
                got = {m for _, m, _ in leaves(v, Ctx())}
                c.ob('a fraction %s, %s, gives BadFract' % (t, d), got == {'BadFract'}, 'outcome %s' % sorted(got), w)
    c.attempt('fractions', KEY, fractions)


if __name__ == '__main__':
    main('C05', body, floor=7)
