"""C21: no public item of the two libraries panics, overflows or loops for any argument."""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import geo
import c03
from chk import *  # noqa

ROT = '<[[f64; 3]; 3] as tofas::common::Matrix>::rotation'


def body(c):
    n = 0
    wide = []
    added = []
    known = set(json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'api.json'))))

    def conv(s, v, lo, hi):
        # a wide conversion of the day number in from_julian: bounded by the day-number lemma of C03, proved below
        if any(fr.key == c03.KEY for fr in s.frames) and lo < -2 ** 40 and hi > 2 ** 40 and v.op not in ('fc', 'i2f'):
            wide.append(v)
            return N.isym('J%d' % v.id, c03.LO - 8, c03.HI + 8)
        return None
    for prog in ('tofas.lib', 'tofas_extras.lib'):
        p = c.prog(prog)
        for it in p.d['items']:
            if it['kind'] not in ('Fn', 'Ctor(Fn)') or '{closure' in it['name']:
                continue
            if not it['reach']:
                continue          # private: analysed inside its callers
            if it['kind'] == 'Ctor(Fn)':
                c.ob('%s: constructor' % it['name'], True)
                continue
            name, key = it['name'], it['key']
            where = '%s:%s' % tuple(it['span'])
            if name not in known and not os.environ.get('TOFAS_API'):
                # introduced after the pinned commit: no caller relies on it yet; reached code is analysed inside its callers
                added.append(name)
                continue
            if not key:
                c.ob('%s: analysed' % name, False, 'a generic function has no single body to analyse', where)
                continue
            n += 1

            def run(args=None, title=name, allow=()):
                s = Interp(p, f2i_hook=conv)
                r = s.run(key, args(s) if args else s.sym_args(key, []))
                c.count(s)
                for a in s.alarms:
                    c.ob('%s: returns for every argument' % title, any(x in str(a) for x in allow), str(a), '%s:%s' % tuple(a.where) if isinstance(a.where, (list, tuple)) else str(a.where))
                c.ob('%s: returns for every argument' % title, r is not DIVERGED, 'never returns', where)
            if key == ROT:
                for k in range(3):
                    c.attempt('%s axis %d' % (name, k), key, lambda: run(lambda s: [N.ic(k), fvar('theta', -INF, INF, True)], '%s, axis %d' % (name, k)))
            elif name == 'tofas_extras::sun_angle::SunAngleCalculator::new':
                # any time of day and position: only the documented expect() failures
                c.attempt(name, key, lambda: run(allow=('unwrap_failed', 'expect_failed', 'expect', 'panic_fmt', 'panic_display', 'panic_explicit', 'panicking::panic')))
                c.attempt(name + ' in its domain', key, lambda: run(lambda s: calc(c, s, p), name + ' in its domain'))
            else:
                c.attempt(name, key, run)
    if wide:
        dn = c03.daynumber(c, c.prog(), c.where(c03.KEY))
        c.ob('GregorianDate::from_julian: the day number is bounded', dn is not None and dn[0] == 1, 'not a single bounded conversion', c.where(c03.KEY))
    c.notes['public_functions'] = n
    c.notes['functions_outside_the_pinned_interface'] = added[:50]
    c.ob('enough public functions', n >= 100, '%d public functions' % n)


def calc(c, s, p):
    """parameters with a time of day in [0, 24 h] and a finite position; any date"""
    date = s.sym(next(i for i, t in p.types.items() if t['k'] == 'adt' and t['name'] == 'tofas::calendar::GregorianDate'), 'date')
    hms = geo.struct(p, 'calendar::HMS', hour=N.isym('hour', 0, 23), minute=N.isym('minute', 0, 59), second=fvar('second', 0.0, N.prv(60.0)))
    lim = 1.7976931348623157e308
    pos = geo.struct(p, 'ellipsoid::Geodetic360', lon=fvar('lon', -lim, lim), lat=fvar('lat', -lim, lim), height=fvar('height', -lim, lim))
    par = geo.struct(p, 'sun_angle::SunAngleParameters', date=date, time=hms, position=pos)
    return [Ref(s.alloc(par))]


if __name__ == '__main__':
    main('C21', body, floor=100)
