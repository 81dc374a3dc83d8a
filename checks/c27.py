"""C27: constants, elementary functions, equality, copies and defaults mean what they are named after."""
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from chk import *  # noqa

M, T, G = 'tofas::common::', 'tofas::time::', 'tofas::calendar::'
HALF = TURN / 2
CONSTS = {M + 'PI': HALF, M + 'DEGREE': HALF / 180, M + 'EPSILON': D(2) ** -52, M + 'TWO_PI': TURN, M + 'AS2R': HALF / 648000,
          M + 'MAS2R': HALF / 648000000, M + 'TURNAS': D(1296000), T + 'D2S': D(86400), T + 'DJY': D('365.25'), T + 'DJ00': D(2451545),
          T + 'DJC': D(36525), T + 'DTAT': D('32.184') / 86400, G + 'MJD_ZERO': D('2400000.5'), G + 'YEAR_MIN': D(-4799),
          G + 'DJ_MIN': D(-32000), G + 'DJ_MAX': D(10) ** 9, 'tofas::earth::AUM': D('149597870700')}
UNARY = {'sqrt': 'fsqrt', 'sin': 'fsin', 'cos': 'fcos', 'tan': 'ftan', 'acos': 'facos', 'asin': 'fasin', 'atan': 'fatan', 'abs': 'fabs',
         'floor': 'ffloor', 'round': 'fround'}
E = 'tofas_extras.lib'


def num(v):
    return v.p if v.op == 'ic' else N.cval(v)


def body(c):
    p = c.prog()
    items = {it['name'] for it in p.d['items']}

    def const(name, want):
        v = constant(c, name)
        got = D(num(v))
        c.ob('%s = %s' % (name, format(want.normalize(), '.17g')), abs(got - want) <= abs(want) * D('2.3e-16'), 'the constant is %s' % got, name)
    for name, want in CONSTS.items():
        if name in items:
            c.attempt(name, None, lambda: const(name, want))

    def fn(name, op):
        key = M + name
        x = fvar('x', -1.0, 1.0) if op in ('facos', 'fasin') else fvar('x', 0.0, 1e12) if op == 'fsqrt' else fvar('x')
        r = collapse(call(c, key, x))
        A = Alg()
        eq(c, 'common::%s' % name, A, r, X(A, A.nf(N.mk(op, (x,)))), c.where(key))
        if op == 'fround':
            for v, want in ((0.5, 1), (1.5, 2), (2.5, 3), (-0.5, -1), (-2.5, -3)):
                c.ob('common::round: %g away from zero' % v, num(collapse(call(c, key, N.fc(v)))) == want, 'rounds the other way', c.where(key))
    for name, op in UNARY.items():
        if M + name in p.fns:
            c.attempt(M + name, M + name, lambda: fn(name, op))

    def two():
        x, y = fvar('x'), fvar('y')
        A = Alg()
        if M + 'atan2' in p.fns:
            eq(c, 'common::atan2: the angle of the point (x, y), y first', A, collapse(call(c, M + 'atan2', y, x)), X(A, A.nf(N.mk('fatan2', (y, x)))), c.where(M + 'atan2'))
        if M + 'sq' in p.fns:
            eq(c, 'common::sq', A, collapse(call(c, M + 'sq', x)), X(A, A.nf(x)) * X(A, A.nf(x)), c.where(M + 'sq'))
    c.attempt('two arguments', None, two)

    # --- equality and copies
    def derived(prog):
        q = c.prog(prog)
        for key in sorted(q.fns):
            if not key.startswith('<tofas') or '<' in key[1:].split(' as ')[0]:
                continue
            name = key[1:].split(' as ')[0].split('::')[-1]
            if key.endswith('std::clone::Clone>::clone'):
                c.attempt(key, key, lambda: clone(prog, q, key, name))
            elif key.endswith('std::cmp::PartialEq>::eq'):
                c.attempt(key, key, lambda: equal(prog, q, key, name))

    def same(s, a, b):
        while a.__class__ is Ref:
            a = s.load(a)
        while b.__class__ is Ref:
            b = s.load(b)
        if a.__class__ is Agg and b.__class__ is Agg:
            return a.v == b.v and len(a.f) == len(b.f) and all(same(s, x, y) for x, y in zip(a.f, b.f))
        if a.__class__ is IteVal or b.__class__ is IteVal:
            def forks(x):
                return forks(x.a) | forks(x.b) | {x.c} if x.__class__ is IteVal else set()

            def at(x, c, v):
                while x.__class__ is IteVal and x.c is c:
                    x = x.a if v else x.b
                return IteVal(x.c, at(x.a, c, v), at(x.b, c, v)) if x.__class__ is IteVal else x
            k = min(forks(a) | forks(b), key=lambda n: n.id)
            return all(same(s, at(a, k, v), at(b, k, v)) for v in (True, False))
        return a is b

    def arg(s, q, key, i, name):
        body_ = q.fns[key]['body']
        ty = q.types[body_['locals'][i + 1]]['e']
        return s.sym(ty, name)

    def clone(prog, q, key, name):
        s = Interp(q)
        a = arg(s, q, key, 0, 'a')
        if not isinstance(a, Agg):
            return                       # an enumeration: C07 and C15 look at its uses
        r = call(c, key, a, prog=prog, s=s)
        c.ob('%s: a clone equals the original' % name, same(s, a, r), 'some component differs', c.where(key, prog))

    def equal(prog, q, key, name):
        s = Interp(q)
        a, b = arg(s, q, key, 0, 'a'), arg(s, q, key, 1, 'b')
        r = call(c, key, a, b, prog=prog, s=s)
        x, y = [n for _, n in scalars(a)], [n for _, n in scalars(b)]
        A = Alg()
        got = X(A, A.cond(r, A.root))
        want = con(A, 1)
        for m, n in zip(x, y):
            want = want * X(A, A.cond(N.feq(m, n) if m.kind == 'f' else N.ieq(m, n), A.root))
        eq(c, '%s: equal exactly when every component is' % name, A, got, want, c.where(key, prog), boundary=False)
    for prog in ('tofas.lib', E):
        derived(prog)

    # --- defaults
    def default():
        key = '<tofas_extras::sun_angle::SunAngleParameters as std::default::Default>::default'
        if key not in c.prog(E).fns:
            return
        v = call(c, key, prog=E)
        q = c.prog(E)
        want = {'date.year': 2007, 'date.month': 4, 'date.day': 5, 'time.hour': 0, 'time.minute': 0, 'time.second': 0,
                'position.lat': 0, 'position.lon': -120, 'position.height': 0}
        for k, n in want.items():
            got = num(get(q, v, k))
            c.ob('default parameters: %s = %d' % (k, n), got == n, 'it is %r' % got, c.where(key, E))
    c.attempt('defaults', None, default)


if __name__ == '__main__':
    main('C27', body, floor=30)
