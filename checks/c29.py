"""C29: every matrix of the frame chain is a proper rotation, over the reals and within the rounding of its evaluation."""
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import iau
from chk import *  # noqa
from c24 import Err, half

M = '<[[f64; 3]; 3] as tofas::common::Matrix>::'
V = '<[f64; 3] as tofas::common::Vector>::'
F = 'tofas::frames::'
PN = F + 'PrecessionNutation'
RESIDUE = D('1e-12')      # of M times its transpose, and of the determinant rule
ROUND = 1e-11             # of each entry


class Rnd(Err):
    """rounding of the evaluation once the angles are known: the angle a sine or cosine is given counts as exact"""

    def mag(self, n):
        iv = self.cx.iv(n)          # that finite dates give no NaN is C23's
        return max(abs(iv[0]), abs(iv[1]))

    def rnd(self, n, g, e):
        return None, e + half(self.mag(n))

    def eval(self, n):
        if n.op in ('fsin', 'fcos'):
            return None, 2.3e-16
        if n.op == 'fsqrt':
            iv, sq = self.cx.iv(n.args[0]), squares(n.args[0])
            if sq is not None:
                # the length of a vector moves by no more than its components do
                return None, sum(self.get(a)[1] for a in sq) + 3 * len(sq) * half(self.mag(n))
            return None, self.get(n.args[0])[1] / (2 * math.sqrt(iv[0])) + half(self.mag(n)) if iv[0] > 0 else INF
        return Err.eval(self, n)


def squares(n):
    if n.op == 'fadd':
        a, b = squares(n.args[0]), squares(n.args[1])
        return a + b if a is not None and b is not None else None
    return [n.args[0]] if n.op == 'fmul' and n.args[0] is n.args[1] else None


def angles(roots):
    """the outermost arguments of sines and cosines, up to sign"""
    out, seen, todo = [], set(), list(roots)
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n.op in ('fsin', 'fcos'):
            a = n.args[0]
            while a.op == 'fneg':
                a = a.args[0]
            if a.op not in ('fc', 'fs') and a not in out:
                out.append(a)
            continue
        todo += n.args
    return out


def small(A, P):
    """the polynomial is at most RESIDUE wherever its sines and cosines are"""
    if all(A.atoms[a][0] in ('sin', 'cos', 'eq', 'lt') for m in P for a, _ in m):
        return sum(abs(v) for v in P.values()) <= RESIDUE
    return None


def generic(tag):
    """a rotation by three free angles, as nodes"""
    def r(axis, th):
        s, c_, o, z = N.f1('fsin', th), N.f1('fcos', th), N.fc(1.0), N.fc(0.0)
        ns = N.f1('fneg', s)
        return [[[o, z, z], [z, c_, s], [z, ns, c_]], [[c_, z, ns], [z, o, z], [s, z, c_]], [[c_, s, z], [ns, c_, z], [z, z, o]]][axis]

    def mul(a, b):
        def dot(x, y):
            t = None
            for p, q in zip(x, y):
                if N.fc(0.0) in (p, q):
                    continue
                u = q if p is N.fc(1.0) else p if q is N.fc(1.0) else N.f2('fmul', p, q)
                t = u if t is None else N.f2('fadd', t, u)
            return t if t is not None else N.fc(0.0)
        return [[dot(row, [b[k][j] for k in range(3)]) for j in range(3)] for row in a]
    a, b, g = [fvar('%s%d' % (tag, i), -7, 7) for i in range(3)]
    return [x for row in mul(mul(r(0, a), r(1, b)), r(2, g)) for x in row]


def rotation(c, name, A, nodes, where):
    if not c.ob('%s: shape' % name, len(nodes) == 9, '%d components' % len(nodes), where):
        return
    m = [[X(A, A.nf(v)) for v in nodes[i:i + 3]] for i in (0, 3, 6)]

    def same(what, got, want):
        d = (got - want).p
        ok = small(A, d)
        if ok is None:
            eq(c, '%s: %s' % (name, what), A, got, want, where, tol=D('1e-13'))
        else:
            c.ob('%s: %s' % (name, what), ok, 'off by %s' % A.sh(d), where)
    one, nul = con(A, 1), con(A, 0)
    for i in range(3):
        for j in range(i, 3):
            same('rows %d and %d' % (i, j), sum_([m[i][k] * m[j][k] for k in range(3)]), one if i == j else nul)
    for k in range(3):
        a, b = (k + 1) % 3, (k + 2) % 3
        same('right-handed, column %d' % k, m[0][a] * m[1][b] - m[0][b] * m[1][a], m[2][k])


def rounding(c, name, nodes, where, pole=()):
    cx = Ctx()
    for n in pole:
        cx.refine(n, (-.7, .7, False))
    e = Rnd(cx, set())
    worst = max([INF if e.get(n)[1] != e.get(n)[1] else e.get(n)[1] for n in nodes])
    # an evaluation whose rounding this analysis cannot bound is noted, not reported
    c.ob('%s: rounding' % name, worst <= ROUND or worst == INF, 'an entry may be off by %.1e from rounding alone' % worst, where)
    c.notes.setdefault('rounding of an entry', {})[name] = '%.1e' % worst if worst < INF else 'not bounded'


def body(c):
    p = c.prog()
    tt, ut = [fvar('tt1'), fvar('tt2')], [fvar('ut1'), fvar('ut2')]
    xp, yp, sp = fvar('xp', -1, 1), fvar('yp', -1, 1), fvar('sp', -1, 1)
    x, y, s0 = fvar('x', -.7, .7), fvar('y', -.7, .7), fvar('s', -7, 7)
    big = 1e12

    def cutting(nodes, more=()):
        cut = {n: 'q%d' % i for i, n in enumerate(more)}
        for i, n in enumerate(angles(nodes)):
            cut.setdefault(n, 'w%d' % i)
        return cut

    def mats(name, key, args, pick=None, more=None, facts=None):
        def one():
            r = call(c, key, *args)
            for what, v in (pick(r) if pick else [('', r)]):
                nodes = [n for _, n in scalars(v)]
                pole = more() if more else ()
                A = Alg(cut=cutting(nodes, pole))
                if facts:
                    facts(A)
                rotation(c, name + what, A, nodes, c.where(key))
                rounding(c, name + what, nodes, c.where(key), pole)
        c.attempt(name, key, one)

    ang = fvar('angle', -big, big)
    for i in range(3):
        mats('rotation about axis %d' % i, M + 'rotation', [N.ic(i), ang])
    g, h = generic('g'), generic('h')
    mats('transpose of a rotation', M + 'transpose', [g])
    mats('composition of rotations', M + 'compose', [g, h])

    def length():
        u = [fvar('u%d' % i) for i in range(3)]
        A = Alg()
        r = [X(A, A.nf(n)) for _, n in scalars(call(c, M + 'apply', g, u))]
        eq(c, 'apply preserves the length', A, sum_([a * a for a in r]), sum_([X(A, A.nf(n)) * X(A, A.nf(n)) for n in u]), c.where(M + 'apply'))
    c.attempt('apply', M + 'apply', length)

    mats('polar_motion_matrix', 'tofas::earth::polar_motion_matrix', [xp, yp, sp])
    mats('nutation_matrix', F + 'nutation_matrix', [fvar('epsa', -10, 10), fvar('dpsi', -10, 10), fvar('deps', -10, 10)])
    mats('bias_and_precession', F + 'bias_and_precession', [tt], lambda r: [(': ' + n, get(p, r, i)) for i, n in enumerate(('bias', 'precession', 'both'))])

    def fields(r):
        have = fieldnames(p, r)
        return [(': ' + n, get(p, r, n)) for n in have if len(scalars(get(p, r, n))) == 9]
    mats('from_tt_with_nutation', PN + '::from_tt_with_nutation', [tt, fvar('dpsi', -10, 10), fvar('deps', -10, 10)], fields)
    mats('PrecessionNutation', '<%s as std::convert::From<tofas::time::TT>>::from' % PN, [tt], fields)
    mats('precession_nutation', F + 'precession_nutation', [tt])

    def disc(A, X_, Y_):
        r2 = X_ * X_ + Y_ * Y_
        if r2.p:
            A.fact(r2.p, '+0')
            A.fact((con(A, 1) - r2).p, '+')
    xy = lambda A: disc(A, X(A, A.nf(x)), X(A, A.nf(y)))  # noqa
    mats('celestial_to_intermediate_from_xys', F + 'celestial_to_intermediate_from_xys', [x, y, s0], facts=xy)
    mats('celestial_to_intermediate_with_bpn_and_xy', F + 'celestial_to_intermediate_with_bpn_and_xy', [tt, x, y], facts=xy)
    free = [fvar('m%d' % i, -.7, .7) for i in range(9)]
    mats('celestial_to_intermediate_with_bpn', F + 'celestial_to_intermediate_with_bpn', [tt, free],
         facts=lambda A: disc(A, X(A, A.nf(free[6])), X(A, A.nf(free[7]))))
    pole = lambda: [n for _, n in scalars(call(c, F + 'precession_nutation', tt))][6:8]  # noqa
    of = lambda A: disc(A, *[X(A, A.nf(n)) for n in pole()])  # noqa
    mats('celestial_to_intermediate', F + 'celestial_to_intermediate', [tt], more=pole, facts=of)
    mats('celestial_to_terrestrial', F + 'celestial_to_terrestrial', [tt, ut, xp, yp], more=pole, facts=of)
    mats('celestial_to_terrestrial_from_cio_components', F + 'celestial_to_terrestrial_from_cio_components', [g, fvar('era', -7, 7), h])
    c.notes['rule'] = 'rows orthonormal and the third the product of the first two (sum of the absolute coefficients at most %s); rounding of each entry at most %g' % (RESIDUE, ROUND)


if __name__ == '__main__':
    main('C29', body, floor=150)
