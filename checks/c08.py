"""C08: vector and matrix algebra."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from chk import *  # noqa

V = '<[f64; 3] as tofas::common::Vector>::'
M = '<[[f64; 3]; 3] as tofas::common::Matrix>::'


def body(c):
    B = 1e75  # moderate size: 1e-75 to 1e75
    a = [fvar('a%d' % i, -B, B) for i in range(3)]
    b = [fvar('b%d' % i, -B, B) for i in range(3)]
    k = fvar('k')
    m = [fvar('m%d' % i) for i in range(9)]
    n = [fvar('n%d' % i) for i in range(9)]

    def xs(A, l):
        return [X(A, A.nf(x)) for x in l]

    def mat(A, l):
        l = xs(A, l)
        return [l[0:3], l[3:6], l[6:9]]

    def same(name, key, A, r, want):
        got = [x for _, x in scalars(r)]
        if isinstance(want, X):
            want = [want]
        if isinstance(want[0], list):
            want = [x for row in want for x in row]
        if not c.ob('%s: shape' % name, len(got) == len(want), 'result has %d components' % len(got), c.where(key)):
            return
        for i, (g, w) in enumerate(zip(got, want)):
            eq(c, '%s: component %d' % (name, i), A, g, w, c.where(key))

    def vec(op, args, f, **kw):
        key = V + op

        def one():
            r = call(c, key, *args)
            A = Alg()
            same(op, key, A, r, f(A))
        c.attempt(key, key, one)

    dot = lambda A, p, q: sum_([x * y for x, y in zip(xs(A, p), xs(A, q))])  # noqa
    norm = lambda A, p: dot(A, p, p).sqrt()                                    # noqa
    vec('neg', [a], lambda A: [-x for x in xs(A, a)])
    vec('scale', [a, k], lambda A: [x * A_k for x in xs(A, a) for A_k in xs(A, [k])])
    vec('add', [a, b], lambda A: [x + y for x, y in zip(xs(A, a), xs(A, b))])
    vec('sub', [a, b], lambda A: [x - y for x, y in zip(xs(A, a), xs(A, b))])
    vec('dot', [a, b], lambda A: dot(A, a, b))
    vec('norm', [a], lambda A: norm(A, a))
    vec('normalize', [a], lambda A: [x / norm(A, a) for x in xs(A, a)])

    def angle():
        key = V + 'angle'
        r = collapse(call(c, key, a, b))
        A = Alg()
        cs = dot(A, a, b) / (norm(A, a) * norm(A, b))
        # Cauchy-Schwarz: the cosine lies in [-1, 1]
        A.fact((cs - 1).p, '-0')
        A.fact((cs + 1).p, '+0')
        eq(c, 'angle: arc cosine of dot / (norm norm)', A, r, cs.acos(), c.where(key))
        # never NaN and in [0, pi]: the norms of non-zero vectors of moderate size are positive and finite
        cx = Ctx()
        seen = set()

        def norms(x):
            if x in seen:
                return
            seen.add(x)
            for y in x.args:
                norms(y)
            if x.op == 'fsqrt':
                cx.refine(x, (1e-75, 2e75, False))
        norms(r)
        iv = cx.iv(r)
        c.ob('angle: never NaN for non-zero vectors', not iv[2], 'the result may be NaN: the argument of acos can leave [-1, 1] by rounding', c.where(key))
        c.ob('angle: in [0, pi]', iv[0] >= 0 and iv[1] <= N.nxt(N.nxt(3.141592653589793)), 'range %r' % (iv,), c.where(key))
    c.attempt('angle', V + 'angle', angle)

    def mop(op, args, f):
        key = M + op

        def one():
            r = call(c, key, *args)
            A = Alg()
            same(op, key, A, r, f(A))
        c.attempt(key, key, one)

    I = lambda A: [[con(A, 1 if i == j else 0) for j in range(3)] for i in range(3)]   # noqa
    mop('zero', [], lambda A: [[con(A, 0)] * 3] * 3)
    mop('identity', [], I)
    mop('compose', [m, n], lambda A: matmul(mat(A, m), mat(A, n)))
    mop('transpose', [m], lambda A: [[mat(A, m)[j][i] for j in range(3)] for i in range(3)])
    mop('apply', [m, a], lambda A: [sum_([mat(A, m)[j][i] * xs(A, a)[j] for j in range(3)]) for i in range(3)])
    th = fvar('theta')
    for ax in range(3):
        mop('rotation', [N.ic(ax), th], lambda A: rot(ax, X(A, A.nf(th))))
    # compositions: apply undoes the order of compose; a rotation is orthogonal
    def laws():
        s = Interp(c.prog())
        A = Alg()
        ab = call(c, M + 'compose', m, n, s=s)
        x1 = call(c, M + 'apply', ab, a, s=s)
        x2 = call(c, M + 'apply', n, call(c, M + 'apply', m, a, s=s), s=s)
        same('apply(A compose B) = apply B after apply A', M + 'apply', A, x1, xs(A, [y for _, y in scalars(x2)]))
        for ax in range(3):
            r = call(c, M + 'rotation', N.ic(ax), th, s=s)
            t = call(c, M + 'transpose', r, s=s)
            same('rotation about %d is orthogonal' % ax, M + 'rotation', A, call(c, M + 'compose', r, t, s=s), I(A))
    c.attempt('laws', M + 'compose', laws)


if __name__ == '__main__':
    main('C08', body, floor=100)
