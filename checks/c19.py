"""C19: what the Display implementations write."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from chk import *  # noqa
import geo
import text
from text import Opt

K = '<tofas::%s as std::fmt::Display>::fmt'

ERRORS = {'calendar::CalendarError': dict(BadYear='bad year', BadMonth='bad month', BadDay='bad day', BadJulian='bad Julian day', BadFract='bad fraction of day'),
          'delta_at::DeltaAtError': dict(BadFract='bad fraction of day'),
          'ellipsoid::EllipsoidError': dict(InvalidRadius='invalid radius', InvalidFlattening='invalid flattening value', BadEccentricity='could not compute EC2',
                                            BadCoordinates='bad coordinates')}


def body(c):
    p = c.prog()
    num = lambda w, pr=None, fl='0': Opt(flags=fl, width=w, prec=pr)

    def sym_of(name):
        ty = next(i for i, t in p.types.items() if t['k'] == 'adt' and t['name'] == 'tofas::' + name)
        return Interp(p).sym(ty, name.split('::')[-1])

    def date(v):
        return [(get(p, v, 'year'), num(4), False), b'-', (get(p, v, 'month'), num(2), True), b'-', (get(p, v, 'day'), num(2), True)]

    def hms(v):
        return [(get(p, v, 'hour'), num(2), True), b':', (get(p, v, 'minute'), num(2), True), b':', (get(p, v, 'second'), num(9, 6), True)]

    def pos(v):
        return [(get(p, v, 'lat'), num(10, 6, '+0'), False), b',', (get(p, v, 'lon'), num(11, 6, '+0'), False), b',',
                (get(p, v, 'height'), num(9, 2, '+0'), False)]

    def degrees(v):
        s = Interp(p)
        return pos(call(c, '<tofas::ellipsoid::Geodetic360 as std::convert::From<&tofas::ellipsoid::Geodetic>>::from', v, s=s))

    for name, spec in (('calendar::GregorianDate', date), ('calendar::HMS', hms),
                       ('calendar::GregorianDateHMS', lambda v: date(get(p, v, 'date')) + [b' '] + hms(get(p, v, 'hms'))),
                       ('ellipsoid::Geodetic360', pos), ('ellipsoid::Geodetic', degrees)):
        key = K % name

        def run():
            v = sym_of(name)
            got = text.written(c, key, v, 'tofas.lib')
            want = spec(v)
            for i, g in enumerate(got):
                text.expect(c, 'Display for %s%s' % (name, ' (%d)' % i if i else ''), Alg(), g, want, c.where(key))
        c.attempt('Display for ' + name, key, run)

    for name, messages in ERRORS.items():
        key = K % name

        def errors():
            i, ty = next((i, t) for i, t in p.types.items() if t['k'] == 'adt' and t['name'] == 'tofas::' + name)
            c.ob('variants of ' + name, set(messages) <= {v['name'] for v in ty['v']}, '%s' % [v['name'] for v in ty['v']], c.where(key))
            for n, v in enumerate(ty['v']):
                if v['name'] not in messages:
                    continue
                for g in text.written(c, key, Agg(i, n, ()), 'tofas.lib'):
                    text.expect(c, 'Display for %s::%s' % (name, v['name']), Alg(), g, [messages[v['name']].encode()], c.where(key))
        c.attempt('messages of ' + name, key, errors)

    E = 'tofas_extras.lib'
    key = "<tofas_extras::sun_angle::SunAngleResultBundle<'a, 'b> as std::fmt::Display>::fmt"

    def report():
        q = c.prog(E)
        k = next(x for x in q.fns if 'SunAngleResultBundle' in x and x.endswith('Display>::fmt'))
        body = q.fns[k]['body']
        ty = q.types[body['locals'][1]]['e']
        s = Interp(q)
        par, res = [q.types[x]['e'] for _, x in q.types[ty]['v'][0]['f']]
        names = [n for n, _ in q.types[ty]['v'][0]['f']]
        vals = {}
        for n, x in zip(names, (par, res)):
            vals[n] = s.sym(x, n)
        P, R = vals['parameters'], vals['result']
        got = written(c, q, k, ty, vals, names)
        A = Alg()
        g = lambda n: X(A, A.nf(get(q, R, n)))
        f6 = Opt(prec=6)

        def total(n):
            a, b = [X(A, A.nf(x)) for _, x in scalars(get(q, R, n))]
            return (a + b, f6, False)
        whole = lambda n: [(get(q, P, n), Opt(), False)]

        def xyz(n, w, pr, fl, label):
            l = [x for _, x in scalars(get(q, R, n))]
            o = []
            for a, x in zip(' X= Y= Z='.split(' ')[1:], l):
                o += [(a if o == [] else ' ' + a).encode(), (x, Opt(width=w, prec=pr, flags=fl), False)]
            o[0] = label.encode() + o[0]
            return o
        deg = TURN / 360
        sza = g('sza') / deg
        want = [b'Date: '] + whole('date') + [b'\nTime: '] + whole('time') + \
            [b' ', (g('delta_s'), Opt(flags='+', width=13, prec=6), False), b's\nJulian date: ', (g('jd0') + g('jd1'), f6, False), b' = ',
             (g('jd0'), f6, False), b' + ', (g('jd1'), f6, False), b'\nPosition: '] + whole('position') + xyz('p', 16, 1, '', '\n ') + \
            [b'\nUTC: ', total('utc'), b'\nDelta AT: ', (g('dat'), f6, False), b'\nTAI: ', total('tai'), b'\nTT: ', total('tt'), b'\nUT1: ', total('ut1'),
             b'\nERA: ', (g('era') / deg, f6, False)] + xyz('earth', 15, 13, '+', '°\nEarth position (AU): ') + \
            xyz('sun_e', 16, 0, '+', '\nSun position (m): ') + \
            [b'\nSun Zenith angle: ', (sza, Opt(width=7, prec=2), False), '° or elevation: '.encode(), (90 - sza, Opt(width=7, prec=2), False), '°\n'.encode()]
        for t in got:
            text.expect(c, 'Display for SunAngleResultBundle', A, t, want, c.where(k, E), loose=True)

    def written(c, q, k, ty, vals, names):
        s = Interp(q)
        v = Agg(ty, 0, tuple(Ref(s.alloc(vals[n])) for n in names))
        return text.written(c, k, v, E, s=s)
    c.attempt('Display for SunAngleResultBundle', None, report)


if __name__ == '__main__':
    main('C19', body, floor=16)
