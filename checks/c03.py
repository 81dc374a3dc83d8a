"""C03: from_julian gives the date and the fraction of the day that contains the instant."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from chk import *  # noqa
import cal

KEY = 'tofas::calendar::GregorianDate::from_julian'
KEY2 = 'tofas::calendar::GregorianDateHMS::from_julian'
LO, HI = -32000, 1000000000          # supported Julian dates
BIG = 1.7976931348623157e308
PARTS = [(-BIG, 0.0), (0.0, 0.5), (0.5, BIG)]
JLO, JHI = LO, HI + 1                # Julian day numbers floor(JD - 0.5) + 1 of the supported instants


def conversions(p):
    """float-to-integer conversions the function makes, in order"""
    l = []

    def hook(s, v, lo, hi):
        if not any(v is x for x, _, _ in l):
            l.append((v, lo, hi))
        return N.isym('conv%d' % next(i for i, x in enumerate(l) if x[0] is v), max(lo, -2 ** 40), min(hi, 2 ** 40))
    s = Interp(p, f2i_hook=hook)
    s.run(KEY, [fvar('u1', -BIG, BIG), fvar('u2', -BIG, BIG)])
    return l


def daynumber(c, p, w):
    """the integer the code converts to is floor(dj1 + dj2 - 0.5) plus a constant and the fraction is the rest, over the
    reals, for every split; gives the number of conversions and the constant"""
    nconv = len(conversions(p))
    if not c.ob('from_julian converts the day number to an integer', 1 <= nconv <= 4, '%d conversions from float to integer' % nconv, w):
        return None
    offset = {}

    def day():
        for a in PARTS:
            for b in PARTS:
                for order in '+-0':
                    if order != '0' and (order == '+' and a[1] <= b[0] or order == '-' and b[1] <= a[0]):
                        continue
                    if order == '0' and a != b:
                        continue
                    for total in '+-':
                        if not (total == '+' and a[1] + b[1] <= 0 or total == '-' and a[0] + b[0] >= 0):
                            one(a, b, order, total)

    def one(a, b, order, total):
        t = 'first part in [%g,%g], second in [%g,%g], first %s second, sum %s' % (a + b + (
            {'+': 'above', '-': 'below', '0': 'equal to'}[order], {'+': 'positive', '-': 'negative'}[total]))
        cap = []

        def hook(s, v, lo, hi):
            if not any(v is x for x, _, _ in cap):
                cap.append((v, lo, hi))
            return N.isym('conv', lo, hi)
        u1, u2 = fvar('u1', *a), fvar('u2', *b)
        s = Interp(p, f2i_hook=hook)
        r = call(c, KEY, u1, u2, s=s, alarms=False)
        A = Alg()
        U1, U2 = X(A, A.nf(u1)), X(A, A.nf(u2))
        syms = {list(U1.p)[0][0][0]: a, list(U2.p)[0][0][0]: b}
        A.ranger = lambda A, P: cal.fracrange(A, P, syms)
        A.clean = lambda P: cal.unsign(A, P, syms)
        A.fact((U1 - U2).p, order)
        A.fact((U1 + U2).p, total)
        for u, (lo, hi) in ((U1, a), (U2, b)):
            A.fact(u.p, '-0' if hi == 0 else '+0')
            A.fact((u - '0.5').p, '+0' if lo == 0.5 else '-0')
        A.fact((U1 + U2 - LO).p, '+0')
        A.fact((-U1 - U2 + HI).p, '+0')
        S = U1 + U2 - '0.5'
        whole = {}
        for v, lo, hi in cap:
            whole = A.add(whole, A.nf(v))
        whole = cal.unsign(A, whole, syms)
        k = A.sub(whole, S.floor().p)
        ok = c.ob('%s: the day number' % t, A.isconst(k), 'the integers converted sum to floor(dj1 + dj2 - 0.5) + %s' % A.sh(k, 4), w)
        if ok:
            offset.setdefault(int(A.cval(k)), t)
        f = cal.unsign(A, part(A, p, r, ('Ok',), '1'), syms)
        eq(c, '%s: the fraction of day' % t, A, X(A, f), S - S.floor(), w, boundary=False)
        for v, lo, hi in cap:
            if len(cap) == 1:
                c.ob('%s: the day number fits' % t, lo <= LO - 3 and hi >= HI + 3, 'the conversion saturates at [%d, %d]' % (lo, hi), w)
    c.attempt('day number and fraction', KEY, day)
    if not c.ob('the day number is the same for every split', len(offset) == 1, 'offsets %s' % offset, w):
        return None
    return nconv, next(iter(offset))


def body(c):
    p = c.prog()
    w = c.where(KEY)
    dn = daynumber(c, p, w)
    if dn is None:
        return
    nconv, k0 = dn

    # ---- the fraction is below one, in floating point
    def below():
        for a in PARTS:
            for b in PARTS:
                u1, u2 = fvar('u1', *a), fvar('u2', *b)
                r = call(c, KEY, u1, u2, alarms=False)
                for cx, n, v in variants(p, r):
                    if n == 'Ok':
                        lo, hi, nan = cx.iv(v.f[0].f[1])
                        c.ob('fraction in [0,1): parts in [%g,%g] and [%g,%g]' % (a + b), lo >= 0 and hi < 1 and not nan,
                             'the fraction lies in [%r, %r]%s' % (lo, hi, ' or is NaN' if nan else ''), w)
    c.attempt('fraction below one', KEY, below)

    # ---- the date from the day number
    def decide(t, r, mo, base, q0, q1, d0, d1):
        bad = []
        q, d = N.ic(q0) if q0 == q1 else N.isym('q', q0, q1), N.ic(d0) if d0 == d1 else N.isym('day', d0, d1)
        total = N.iadd(N.iadd(N.iscale(q, 146097), d), N.ic(base - 1 + k0))
        seen = []

        def hook(s, v, lo, hi):
            if not any(v is x for x in seen):
                seen.append(v)
            i = next(i for i, x in enumerate(seen) if x is v)
            if i < nconv - 1:
                return N.isym('conv%d' % i, -2 ** 40, 2 ** 40)
            j = total
            for i in range(nconv - 1):
                j = N.iadd(j, N.iscale(N.isym('conv%d' % i, -2 ** 40, 2 ** 40), -1))
            return j
        s = Interp(p, f2i_hook=hook)
        v = s.run(KEY, [fvar('u1', -BIG, BIG), fvar('u2', -BIG, BIG)])
        c.steps += s.steps
        c.fns |= set(s.entered)
        bad += [(t, 'may panic: %s' % (al,)) for al in s.alarms]
        oks = [y.f[0].f[0] for _, nm, y in variants(p, v) if nm == 'Ok']
        if len(oks) != 1:
            return bad + [(t, '%d successful outcomes' % len(oks))]
        for name, want in (('year', N.iadd(N.iscale(q, 400), N.ic(r))), ('month', N.ic(mo)), ('day', d)):
            got = get(p, oks[0], name)
            if got is not want:
                bad.append((t, 'the %s is %r, %r expected' % (name, got, want)))
        return bad

    def cell(x):
        title, r = x
        bad, n = [], 0
        for mo in range(1, 13):
            base = cal.mjd0(r, mo) + 2400001                     # Julian day number of day 0, cycle 0
            nd = cal.ndays(r, mo)
            qlo = -((base + 1 - JLO) // 146097)                  # first cycle wholly inside
            qhi = (JHI - base - nd) // 146097
            cells = [('', qlo, qhi, 1, nd)]
            for q in (qlo - 1, qhi + 1):
                d0, d1 = max(1, JLO - base - 146097 * q), min(nd, JHI - base - 146097 * q)
                if d0 <= d1:
                    cells.append((', cycle %d' % q, q, q, d0, d1))
            while cells:
                N.reset()
                t, q0, q1, d0, d1 = cells.pop()
                e = decide('%s month %d%s' % (title, mo, t), r, mo, base, q0, q1, d0, d1)
                if e and d0 < d1 and len(bad) < 12:
                    # an intermediate quantity changes within the month: decide the halves
                    m = (d0 + d1) // 2
                    t = t.split(', days')[0]
                    cells += [('%s, days %d-%d' % (t, x, y), q0, q1, x, y) for x, y in ((d0, m), (m + 1, d1))]
                    continue
                n += 4
                bad += e
        return n, bad
    items = [('year = %d mod 400' % r, r) for r in range(400)]
    n, bad = spread(c, items, cell)
    for t, e in bad[:40]:
        c.ob(t, False, e, w)
    c.ob('all months of the partition', n >= 400 * 48, '%d obligations' % n, w)
    c.notes['partition'] = 'year residue mod 400 x month; the 400-year cycle and the day are symbolic, with the ends of the supported range apart'

    # ---- rounding next to midnight: the instant before or after, whatever the split
    def midnight():
        from fractions import Fraction as Q
        tiny = [(-1e-17, -1e-300), (1e-300, 1e-17)]
        cells = [(k, t) for k in (2451544.5, 2400000.5, 0.5, -0.5, 1721425.5) for t in tiny]
        cells += [(2400000.5, (f(x), f(x))) for x in (51544.0, 0.0, 1.0, -1.0, 100000.0) for f in (N.prv, N.nxt, float)]
        cells += [(f(x), (0.5, 0.5)) for x in (2451544.0, 2451545.0) for f in (N.prv, N.nxt, float)]
        for k, (lo, hi) in cells:
            for swap in (False, True):
                u2 = fvar('u2', lo, hi) if lo < hi else N.fc(lo)
                args = (u2, N.fc(k)) if swap else (N.fc(k), u2)
                r = call(c, KEY, *args, alarms=False)
                t = '%r + [%r, %r]%s' % (k, lo, hi, ', swapped' if swap else '')
                oks = [(cx, v.f[0]) for cx, n, v in variants(p, r) if n == 'Ok']
                if not c.ob('near midnight, %s: succeeds' % t, oks, 'rejected', w):
                    continue
                for cx, v in oks:
                    y, m, d = [cx.iv(get(p, v, '0.' + x)) for x in ('year', 'month', 'day')]
                    f = cx.iv(get(p, v, 1))
                    one = y[0] == y[1] and m[0] == m[1] and d[0] == d[1]
                    if not c.ob('near midnight, %s: one date' % t, one and not f[2], 'year %r month %r day %r' % (y, m, d), w):
                        continue
                    j0 = Q(cal.mjd0(int(y[0]), int(m[0])) + int(d[0])) + Q(4800001, 2)     # midnight of the date
                    e = [j0 + Q(x) - Q(k) - Q(z) for x, z in ((f[0], hi), (f[1], lo))]
                    c.ob('near midnight, %s: the date and the fraction denote the instant' % t, f[0] >= 0 and f[1] < 1 and max(map(abs, e)) < Q(1, 10 ** 9),
                         'day from %s plus [%r, %r], which is off by %.3g days' % (float(j0), f[0], f[1], float(max(map(abs, e)))), w)
    c.attempt('near midnight', KEY, midnight)

    # ---- rejection
    def reject():
        u1, u2 = fvar('u1', -BIG, BIG), fvar('u2', -BIG, BIG)
        r = call(c, KEY, u1, u2, alarms=False)
        A = Alg()
        S = X(A, A.nf(u1)) + X(A, A.nf(u2))
        out = gate((S - LO).neg(), con(A, 1), (con(A, HI) - S).neg())
        eq(c, 'rejected exactly outside [-32000, 1e9]', A, X(A, part(A, p, r, ('Err', 'BadJulian'))), out, w)
        eq(c, 'accepted exactly inside [-32000, 1e9]', A, X(A, part(A, p, r, ('Ok',))), con(A, 1) - out, w)
        nan, inf = N.fc(float('nan')), N.fc(INF)
        ninf, any_ = N.fc(-INF), fvar('u', -BIG, BIG)
        for t, x, y in (('NaN first', nan, any_), ('NaN second', any_, nan), ('both NaN', nan, nan), ('+inf first', inf, any_),
                        ('+inf second', any_, inf), ('-inf first', ninf, any_), ('-inf second', any_, ninf),
                        ('both infinite', inf, inf), ('opposite infinities', inf, ninf), ('opposite infinities, swapped', ninf, inf)):
            r = call(c, KEY, x, y)
            got = {n for _, n, _ in variants(p, r)}
            if got == {'Err'}:
                got |= {m for _, n, v in variants(p, r) for _, m, _ in variants(p, v.f[0])}
            c.ob('%s is rejected with BadJulian' % t, got == {'Err', 'BadJulian'}, 'outcome %s' % sorted(got), w)
        for t, x in (('the lower end', LO), ('the upper end', HI)):
            for a, b, s in ((x, 0, 1), (0, x, 1), (x, -1 if x < 0 else 1, 0), (-1 if x < 0 else 1, x, 0)):
                r = call(c, KEY, N.fc(float(a)), N.fc(float(b)))
                got = {n for _, n, _ in variants(p, r)}
                c.ob('%s: (%g, %g) is %s' % (t, a, b, 'accepted' if s else 'rejected'), got == {'Ok' if s else 'Err'}, 'outcome %s' % sorted(got), w)
    c.attempt('rejection', KEY, reject)

    # ---- no panic for any pair of numbers
    def panics():
        # a single conversion is of floor(dj1 + dj2 - 0.5) + k (above), within the supported range by the guard
        s = Interp(p, f2i_hook=(lambda s, v, lo, hi: N.isym('J', max(lo, LO - 8), min(hi, HI + 8))) if nconv == 1 else None)
        call(c, KEY, N.fs('u1', -INF, INF, True), N.fs('u2', -INF, INF, True), s=s, alarms=False)
        c.ob('from_julian does not panic for any pair of numbers', not s.alarms, '%s' % (s.alarms[:3],), w)
    c.attempt('no panic', KEY, panics)

    # ---- date with time of day
    def hms():
        w2 = c.where(KEY2)
        FR = 'tofas::calendar::HMS::from_fraction_of_day'
        s = Interp(p)
        u1, u2 = fvar('u1', -BIG, BIG), fvar('u2', -BIG, BIG)
        r2 = call(c, KEY2, u1, u2, s=s, alarms=False)
        r1 = call(c, KEY, u1, u2, s=s, alarms=False)
        oks = [v.f[0] for _, n, v in variants(p, r2) if n == 'Ok']
        base = [v.f[0] for _, n, v in variants(p, r1) if n == 'Ok'][0]
        date, fod = get(p, base, 0), get(p, base, 1)
        rf = call(c, FR, fod, s=s, alarms=False)
        want = [v.f[0] for _, n, v in variants(p, rf) if n == 'Ok'][0]
        A = Alg()
        for o in oks:
            for i, k in enumerate(('year', 'month', 'day')):
                c.ob('GregorianDateHMS::from_julian: %s of the date' % k, get(p, o, 'date.' + k) is get(p, date, k), 'another value than that of GregorianDate::from_julian', w2)
            for k in ('hour', 'minute', 'second'):
                got, exp = get(p, o, 'hms.' + k), get(p, want, k)
                same = got is exp or got.kind == 'f' and not A.differ(A.nf(got), A.nf(exp))
                c.ob('GregorianDateHMS::from_julian: %s of the fraction' % k, same, 'another value than that of HMS::from_fraction_of_day', w2)
        a = part(A, p, r2, ('Ok',))
        b = part(A, p, r1, ('Ok',))
        bad = A.differ(a, b)
        c.ob('GregorianDateHMS::from_julian succeeds exactly when GregorianDate::from_julian does', not bad, A.showbad(bad) if bad else '', w2)
    c.attempt('GregorianDateHMS::from_julian', KEY2, hms)


if __name__ == '__main__':
    main('C03', body, floor=60)
