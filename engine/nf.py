"""Real-arithmetic canonical forms of value-graph nodes.

A node is rewritten into a polynomial over atoms (inputs, sines and cosines of canonical polynomials,
square roots, reciprocals, integer parts, gate indicators, opaque calls).  Rewriting uses field
algebra, the parities and the periodicity of the trigonometric functions, sin^2+cos^2=1, sqrt^2, the
definition of remainders and the idempotence of indicators.  Two nodes whose canonical forms agree
denote the same real function of the inputs; floating-point rounding is ignored except that
coefficients are compared to 1e-14 (1e-12 inside functions).  Nothing is executed and no input value is ever chosen.
"""
import math
from decimal import Decimal as D, getcontext
import nodes as N
from nodes import INF

getcontext().prec = 44
ZERO, ONE, HALF, TWO = D(0), D(1), D('0.5'), D(2)
TURN = D(2 * math.pi)
QUART = D(math.pi / 2)
TOL = D('1e-14')     # coefficients of results
ITOL = D('1e-12')    # coefficients inside sin, cos, sqrt, ... (differences of large rates cancel)
EPSC = D('1e-16')


class TooBig(Exception):
    pass


class Inexact(Exception):
    """a node outside the algebra"""


def dec(v):
    if v != v or v in (INF, -INF):
        raise Inexact('constant %r' % v)
    return +D(v)


class State:
    __slots__ = ('ctx', 'asm', 'memo', 'parent', 'kids')

    def __init__(self, ctx, asm, parent=None):
        self.ctx, self.asm, self.parent = ctx, asm, parent
        self.memo = {}
        self.kids = {}


SENS = set('fite iite bite fabs ftrunc ffloor fceil fround frem f2i fmin fmax fcopysign i2f not flt fle feq ilt0 ieq0 fsqrt'.split())
INTK = ('floor', 'trunc', 'round', 'ceil', 'bool', 'lt', 'eq', 'int')
NONNEG = ('sqrt', 'bool', 'lt', 'eq', 'abs')


class Alg:
    def __init__(self, ctx=None, bind=None, cut=None, limit=20000, expand=20000):
        self._asg = {}
        self.ctx = ctx or N.Ctx()
        self.atoms = []          # (kind, data)
        self.akey = {}
        self.polys = []
        self.buckets = {}
        self.bind = bind or {}
        self.cut = cut or {}
        self.limit = limit
        self.expand = expand
        self._sens = {}
        self.root = State(self.ctx, {})
        self.lead = {}
        self.nonneg = set()
        self.ranger = None        # P -> (low, low attained, high, high attained) or None
        self.clean = None         # P -> equal polynomial with fewer indicators

    # ------------------------------------------------------------ atoms
    def atom(self, kind, *data):
        k = (kind,) + data
        a = self.akey.get(k)
        if a is None:
            a = self.akey[k] = len(self.atoms)
            self.atoms.append(k)
        return a

    def av(self, a, e=1):
        return {((a, e),): ONE}

    def intern(self, P, angle=False):
        """identity of a polynomial, coefficients compared to the tolerance; the coefficients of a large
        angle (rates in radians per century) also to an absolute tolerance"""
        at = ZERO
        if P:
            s = max(abs(c) for c in P.values())
            t = s * EPSC
            P = {m: c for m, c in P.items() if abs(c) > t}
            if angle:
                at = D('1e-11') if s > 10 else D('2e-12') if s > 1 else s * D('1e-13')
        key = frozenset(P)
        b = self.buckets.setdefault(key, [])
        for Q, i in b:
            for m, c in P.items():
                q = Q[m]
                if abs(c - q) > ITOL * max(abs(c), abs(q)) and abs(c - q) > at:
                    break
            else:
                return i
        i = len(self.polys)
        self.polys.append(P)
        b.append((P, i))
        return i

    # ------------------------------------------------------------ polynomials
    def const(self, c):
        c = c if isinstance(c, D) else dec(c)
        return {(): c} if c else {}

    def isconst(self, P):
        return not P or (len(P) == 1 and () in P)

    def cval(self, P):
        return P.get((), ZERO)

    def add(self, A, B, s=ONE):
        if len(A) < len(B) and s == ONE:
            A, B = B, A
        r = dict(A)
        for m, c in B.items():
            o = r.get(m)
            if o is None:
                r[m] = s * c
            else:
                v = o + s * c
                if abs(v) <= abs(o) * EPSC:
                    del r[m]
                else:
                    r[m] = v
        return r

    def sub(self, A, B):
        return self.add(A, B, -ONE)

    def scale(self, A, k):
        if not k:
            return {}
        return {m: c * k for m, c in A.items()}

    def mul(self, A, B):
        if not A or not B:
            return {}
        if len(A) == 1 and () in A:
            return self.scale(B, A[()])
        if len(B) == 1 and () in B:
            return self.scale(A, B[()])
        n = len(A) * len(B)
        if n > self.limit and n > max(len(A), len(B)):
            # too large to distribute: the larger factor becomes an atom
            if len(A) < len(B):
                A, B = B, A
            A = self.wrap(A)
            if len(A) * len(B) > self.limit and len(B) > 1:
                B = self.wrap(B)
        out = {}
        todo = []
        for m1, c1 in A.items():
            for m2, c2 in B.items():
                m, dirty = self.mmul(m1, m2)
                if dirty:
                    todo.append((m, c1 * c2))
                else:
                    self._acc(out, m, c1 * c2)
        for m, c in todo:
            for m2, c2 in self.reduce(m).items():
                self._acc(out, m2, c * c2)
        return out

    def _acc(self, out, m, c):
        o = out.get(m)
        if o is None:
            if c:
                out[m] = c
        else:
            v = o + c
            if abs(v) <= abs(o) * EPSC:
                del out[m]
            else:
                out[m] = v

    def wrap(self, A):
        """A as monomial times a normalised polynomial atom"""
        k, mono, P = self.content(A)
        if len(P) == 1:
            return A
        a = self.atom('poly', self.intern(P))
        m, dirty = self.mmul(mono, ((a, 1),))
        return {m: k}

    def content(self, A):
        """A = k * mono * P with P monic-ish and without common monomial"""
        it = iter(A)
        com = dict(next(it))
        for m in it:
            d = dict(m)
            for a in set(com) | set(d):
                com[a] = min(com.get(a, 0), d.get(a, 0))
        com = {a: e for a, e in com.items() if e}
        if com:
            P = {}
            for m, c in A.items():
                d = dict(m)
                for a, e in com.items():
                    d[a] = d.get(a, 0) - e
                P[tuple(sorted((a, e) for a, e in d.items() if e))] = c
        else:
            P = A
        lm = max(P, key=self.order)
        k = P[lm]
        P = {m: c / k for m, c in P.items()}
        return k, tuple(sorted(com.items())), P

    def order(self, m):
        return (sum(e for _, e in m), m)

    def mmul(self, m1, m2):
        if not m1:
            return m2, False
        if not m2:
            return m1, False
        d = dict(m1)
        dirty = False
        for a, e in m2:
            o = d.get(a)
            if o is None:
                d[a] = e
            else:
                d[a] = o + e
                if not d[a]:
                    del d[a]
        at = self.atoms
        seen = None
        for a, e in d.items():
            k = at[a][0]
            if k in ('sqrt',) and (e > 1 or e < 0):
                dirty = True
            elif k == 'cos' and e > 1:
                dirty = True
            elif k in ('bool', 'lt', 'eq'):
                if e > 1:
                    dirty = True
                if k == 'lt' and self.akey.get(('eq', at[a][1])) in d:
                    dirty = True
            elif k == 'inv':
                dirty = True
            elif k == 'poly' and e < 0:
                dirty = True
        return tuple(sorted(d.items())), dirty

    def reduce(self, m):
        """rewrite a monomial to canonical form"""
        out = {}
        todo = [(m, ONE)]
        steps = 0
        while todo:
            m, c = todo.pop()
            steps += 1
            if steps > 200000:
                raise TooBig()
            r = self._rw(m)
            if r is None:
                self._acc(out, m, c)
            else:
                for m2, c2 in r:
                    todo.append((m2, c * c2))
        return out

    def _rw(self, m):
        at = self.atoms
        for i, (a, e) in enumerate(m):
            k = at[a][0]
            if k == 'sqrt' and (e > 1 or e < 0):
                base = self.polys[at[a][1]]
                rest = m[:i] + m[i + 1:]
                q, r = divmod(e, 2)
                B = self.power(base, q) if q >= 0 else self.power(self.inv(base), -q)
                if r:
                    rest = tuple(sorted(rest + ((a, 1),)))
                return [(self.mmul(rest, x)[0], c) for x, c in B.items()]
            if k == 'cos' and e > 1:
                s = self.akey[('sin', at[a][1])]
                rest = m[:i] + (((a, e - 2),) if e > 2 else ()) + m[i + 1:]
                return [(rest, ONE), (self.mmul(rest, ((s, 2),))[0], -ONE)]
            if k in ('bool', 'lt', 'eq'):
                if e > 1:
                    return [(m[:i] + ((a, 1),) + m[i + 1:], ONE)]
                if k == 'lt':
                    q = self.akey.get(('eq', at[a][1]))
                    if q is not None and any(x == q for x, _ in m):
                        return []
            if k == 'poly' and e < 0:
                rest = m[:i] + m[i + 1:]
                iv = self.power(self.inv(self.polys[at[a][1]], noexp=True), -e)
                return [(self.mmul(rest, x)[0], c) for x, c in iv.items()]
            if k == 'inv':
                pid = at[a][1]
                base = self.polys[pid]
                # inv(P) * poly(P) = 1
                pa = self.akey.get(('poly', pid))
                if pa is not None:
                    for j, (b, eb) in enumerate(m):
                        if b == pa and eb > 0:
                            d = dict(m)
                            x = min(e, eb)
                            d[a] -= x
                            d[b] -= x
                            return [(tuple(sorted((u, v) for u, v in d.items() if v)), ONE)]
                if len(base) > 16:
                    continue
                lm = self.lead.get(pid)
                if lm is None:
                    lm = self.lead[pid] = max(base, key=self.order)
                d = dict(m)
                if all(d.get(x, 0) >= y for x, y in lm) and lm:
                    for x, y in lm:
                        d[x] -= y
                    cl = base[lm]
                    rest = tuple(sorted((u, v) for u, v in d.items() if v))
                    d2 = dict(rest)
                    d2[a] -= 1
                    res = [(tuple(sorted((u, v) for u, v in d2.items() if v)), ONE / cl)]
                    for mm, cc in base.items():
                        if mm != lm:
                            res.append((self.mmul(rest, mm)[0], -cc / cl))
                    return res
        return None

    def power(self, A, n):
        if n < 0:
            return self.power(self.inv(A), -n)
        r = {(): ONE}
        while n:
            if n & 1:
                r = self.mul(r, A)
            n >>= 1
            if n:
                A = self.mul(A, A)
        return r

    def inv(self, A, noexp=False):
        if not A:
            raise Inexact('division by zero')
        if len(A) == 1:
            (m, c), = A.items()
            k = ONE / c
            return self._mono(tuple((a, -e) for a, e in m), k)
        k, mono, P = self.content(A)
        # an indicator in the denominator: 1/(x + (y-x)G) = 1/x + (1/y - 1/x) G
        g = self._gate_in(P)
        if g is not None and not noexp:
            A1, A0 = self.setbool(A, g, ONE), self.setbool(A, g, ZERO)
            i1, i0 = self.inv(A1), self.inv(A0)
            return self.add(i0, self.mul(self.sub(i1, i0), self.av(g)))
        a = self.atom('inv', self.intern(P))
        m = tuple((x, -e) for x, e in mono)
        return self.mul(self._mono(m, ONE / k), self.av(a))

    def _mono(self, m, k):
        """monomial with possibly negative exponents, canonical: an inverse of inv(P) is P again"""
        out = {(): k}
        plain = []
        for a, e in m:
            kk = self.atoms[a][0]
            if e < 0 and kk == 'inv':
                out = self.mul(out, self.power(self.polys[self.atoms[a][1]], -e))
            elif e < 0 and kk == 'poly':
                out = self.mul(out, self.power(self.av(self.atom('inv', self.atoms[a][1])), -e))
            elif kk in ('sqrt', 'cos', 'bool', 'lt', 'eq', 'inv') and (e < 0 or e > 1):
                if e < 0 and kk in ('bool', 'lt', 'eq'):
                    raise Inexact('division by an indicator')
                R = self.reduce(((a, e),))
                out = self.mul(out, R)
            else:
                plain.append((a, e))
        if plain:
            out = self.mul(out, {tuple(sorted(plain)): ONE})
        return out

    def _gate_in(self, P):
        for m in P:
            for a, e in m:
                if self.atoms[a][0] in ('bool', 'lt', 'eq'):
                    return a
        return None

    def setbool(self, P, g, v):
        """the polynomial with indicator g set to v; an indicator of the same quantity follows"""
        kill = set()
        if v and self.atoms[g][0] in ('lt', 'eq'):
            o = self.akey.get(('eq' if self.atoms[g][0] == 'lt' else 'lt', self.atoms[g][1]))
            if o is not None:
                kill.add(o)
        out = {}
        for m, c in P.items():
            if any(a in kill for a, _ in m):
                continue
            if any(a == g for a, _ in m):
                if not v:
                    continue
                m = tuple(x for x in m if x[0] != g)
            self._acc(out, m, c)
        return out

    # ------------------------------------------------------------ functions
    def isint(self, m):
        return all(e > 0 and (self.atoms[a][0] in INTK) for a, e in m)

    def dropturns(self, P):
        out = {}
        for m, c in P.items():
            if self.isint(m):
                q = c / TURN
                n = q.to_integral_value()
                if n and abs(q - n) <= TOL * max(ONE, abs(n)):
                    r = c - n * TURN
                    if m == () and abs(r) > D('1e-13'):
                        out[m] = r
                    continue
            out[m] = c
        return out

    INVTRIG = ('atan2', 'atan', 'acos', 'asin')

    def sincos(self, P):
        """(sin P, cos P)"""
        g = self._gate_top(P)
        if g is not None:
            s1, c1 = self.sincos(self.setbool(P, g, ONE))
            s0, c0 = self.sincos(self.setbool(P, g, ZERO))
            G = self.av(g)
            return (self.add(s0, self.mul(self.sub(s1, s0), G)), self.add(c0, self.mul(self.sub(c1, c0), G)))
        P = self.dropturns(P)
        if () in P and abs(P[()]) > TURN / 2:
            # whole turns do not matter
            P = dict(P)
            P[()] -= TURN * (P[()] / TURN).to_integral_value()
        for m, c in P.items():
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] in self.INVTRIG and abs(abs(c) - 1) <= TOL:
                sA, cA = self._sc_inv(m[0][0])
                if sA is None:
                    continue
                if c < 0:
                    sA = self.scale(sA, -ONE)
                Q = dict(P)
                del Q[m]
                sQ, cQ = self.sincos(Q)
                return (self.add(self.mul(sA, cQ), self.mul(cA, sQ)), self.sub(self.mul(cA, cQ), self.mul(sA, sQ)))
        rot = 0
        c0 = P.get((), ZERO)
        if c0:
            q = c0 / QUART
            n = q.to_integral_value()
            if n and abs(q - n) <= TOL:
                P = dict(P)
                r = c0 - n * QUART
                if abs(r) > D('1e-13'):
                    P[()] = r
                else:
                    del P[()]
                rot = int(n) % 4
        if not P:
            s, c = {}, {(): ONE}
        else:
            sg = ONE
            lm = max(P, key=self.order)
            if P[lm] < 0:
                sg = -ONE
                P = self.scale(P, -ONE)
            i = self.intern(P, True)
            s, c = {((self.atom('sin', i), 1),): sg}, self.av(self.atom('cos', i))
        if rot == 1:
            s, c = c, self.scale(s, -ONE)
        elif rot == 2:
            s, c = self.scale(s, -ONE), self.scale(c, -ONE)
        elif rot == 3:
            s, c = self.scale(c, -ONE), s
        return s, c

    def _gate_top(self, P):
        """an indicator that multiplies something other than a whole turn"""
        for m, c in P.items():
            for a, e in m:
                if self.atoms[a][0] in ('bool', 'lt', 'eq'):
                    q = c / TURN
                    n = q.to_integral_value()
                    if self.isint(m) and n and abs(q - n) <= TOL * max(ONE, abs(n)):
                        break
                    return a
        return None

    def _sc_inv(self, a):
        k = self.atoms[a]
        if k[0] == 'atan2':
            y, x = self.polys[k[1]], self.polys[k[2]]
            if len(y) ** 2 + len(x) ** 2 > self.expand:
                return None, None
            r = self.inv(self.sqrt(self.add(self.mul(x, x), self.mul(y, y))))
            return self.mul(y, r), self.mul(x, r)
        p = self.polys[k[1]]
        if len(p) ** 2 > self.expand:
            return None, None
        q = self.mul(p, p)
        if k[0] == 'atan':
            r = self.inv(self.sqrt(self.add(q, {(): ONE})))
            return self.mul(p, r), r
        r = self.sqrt(self.sub({(): ONE}, q))
        return (r, p) if k[0] == 'acos' else (p, r)

    def _rootden(self, P):
        """sqrt(N / D) = sqrt(s N) sqrt(s D) / (s D) with s the sign of D, as far as it is known: (s N, the rest)"""
        out = {(): ONE}
        dens = {}
        for m in P:
            for a, e in m:
                if e > 0 and self.atoms[a][0] == 'inv':
                    dens[a] = max(e, dens.get(a, 0))
        if not dens or len(dens) > 2:
            return P, out
        N = P
        for a, e in dens.items():
            N = self.mul(N, self.power(self.polys[self.atoms[a][1]], e))
        if any(self.atoms[a][0] == 'inv' for m in N for a, _ in m) or not N or len(N) > 60:
            return P, out

        def sign(Q):
            L, E = self.signatoms(Q)
            if not L:
                return 1
            return -1 if not self.signatoms(self.scale(Q, -ONE))[0] else 0
        unknown = []
        for a, e in dens.items():
            D = self.polys[self.atoms[a][1]]
            s = 1
            if e % 2:
                s = sign(D)
                if not s:
                    unknown.append((a, D))
                    continue
            if s < 0:
                D, N = self.scale(D, -ONE), self.scale(N, -ONE)
            out = self.mul(out, self.power(self.inv(D), (e + 1) // 2))
            if e % 2:
                out = self.mul(out, self.sqrt(D))
        for a, D in unknown:
            # the quotient is not negative where it is defined
            if len(unknown) == 1 and sign(N) < 0:
                D, N = self.scale(D, -ONE), self.scale(N, -ONE)
            e = dens[a]
            out = self.mul(out, self.mul(self.power(self.inv(D), (e + 1) // 2), self.sqrt(D)))
        return N, out

    def sqrt(self, P, state=None):
        if not P:
            return {}
        if self.isconst(P):
            c = P[()]
            if c < 0:
                raise Inexact('sqrt of a negative constant')
            return {(): c.sqrt()}
        g = self._gate_in(P)
        if g is not None:
            s1, s0 = self.sqrt(self.setbool(P, g, ONE)), self.sqrt(self.setbool(P, g, ZERO))
            return self.add(s0, self.mul(self.sub(s1, s0), self.av(g)))
        P, out = self._rootden(P)
        if self.isconst(P):
            return self.mul(self.sqrt(P), out) if P else {}
        k, mono, Q = self.content(P)
        left = []
        for a, e in mono:
            kk = self.atoms[a][0]
            if kk == 'inv':
                # sqrt(X / D) = sqrt(X) sqrt(D) / D, defined for X/D >= 0 with D > 0
                q, r = divmod(e, 2)
                if q:
                    out = self.mul(out, self.power(self.av(a), q))
                if r:
                    out = self.mul(out, self.mul(self.sqrt(self.polys[self.atoms[a][1]]), self.av(a)))
            else:
                q, r = divmod(e, 2)
                if q:
                    x = self.av(a) if (kk in NONNEG or a in self.nonneg) else self.abs(self.av(a))
                    out = self.mul(out, self.power(x, q))
                if r:
                    left.append((a, 1))
        if k < 0:
            k, Q = -k, self.scale(Q, -ONE)
        if left:
            Q = self.mul(Q, {tuple(sorted(left)): ONE})
        if self.isconst(Q) and self.cval(Q) > 0:
            return self.scale(out, (k * self.cval(Q)).sqrt())
        # a perfect square of a single monomial is handled above; the rest stays under the root
        i = self.intern(Q)
        return self.mul(self.scale(out, k.sqrt()), self.av(self.atom('sqrt', i)))

    def orient(self, P):
        lm = max(P, key=self.order)
        if P[lm] < 0:
            return -ONE, self.scale(P, -ONE)
        return ONE, P

    def signatoms(self, P, st=None):
        """indicators ([P<0], [P==0])"""
        if self.isconst(P):
            c = self.cval(P)
            return ({(): ONE} if c < 0 else {}, {(): ONE} if c == 0 else {})
        if self.clean:
            Q = self.clean(P)
            if Q is not P:
                return self.signatoms(Q, st)
        g = self._gate_in(P)
        if g is not None:
            l1, e1 = self.signatoms(self.setbool(P, g, ONE), st)
            l0, e0 = self.signatoms(self.setbool(P, g, ZERO), st)
            G = self.av(g)
            return (self.add(l0, self.mul(self.sub(l1, l0), G)), self.add(e0, self.mul(self.sub(e1, e0), G)))
        st = st or self.root
        b = (self.ranger(self, P) if self.ranger else None) or self._remainder(P)
        if b:
            if b[0] > 0 or b[0] == 0 and not b[1]:
                return {}, {}
            if b[2] < 0 or b[2] == 0 and not b[3]:
                return {(): ONE}, {}
        P = self._strip(P, st)
        lm = max(P, key=self.order)
        k = P[lm]
        Q = {m: c / k for m, c in P.items()}
        # positive factors do not matter
        i = self.intern(Q)
        if i not in st.asm:
            # the sign of P; below, that of Q
            s = self._sumsign(P, st)
            if s == '+':
                return {}, {}
            if s == '-':
                return {(): ONE}, {}
            if s and k < 0:
                s = {'+0': '-0', '-0': '+0'}[s]
        else:
            s = st.asm[i]
        if s in (None, '+0') and i not in st.asm and len(Q) == 1:
            # a root vanishes with its radicand
            (m, _), = Q.items()
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == 'sqrt':
                l, E = self.signatoms(self.polys[self.atoms[m[0][0]][1]], st)
                E = self.add(l, E) if l else E
                return (self.sub({(): ONE}, E) if k < 0 else {}), E
        if s is not None:
            if s in ('-', '0', '+'):
                if k < 0:
                    s = {'-': '+', '+': '-', '0': '0'}[s]
                return ({(): ONE} if s == '-' else {}, {(): ONE} if s == '0' else {})
            # a weak sign leaves only the boundary open
            if (s == '+0') == (k > 0):
                return {}, self.av(self.atom('eq', i))
            E = self.av(self.atom('eq', i))
            return self.sub({(): ONE}, E), E
        L, E = self.av(self.atom('lt', i)), self.av(self.atom('eq', i))
        if k < 0:
            L = self.sub(self.sub({(): ONE}, L), E)
        return L, E

    def _remainder(self, P):
        """bounds of c*(u - trunc(u)) + k and of c*(u - floor(u)) + k: (low, attained, high, attained)"""
        for m, c in P.items():
            if len(m) != 1 or m[0][1] != 1 or self.atoms[m[0][0]][0] not in ('trunc', 'floor'):
                continue
            kind, q = self.atoms[m[0][0]][:2]
            rest = self.add({x: y for x, y in P.items() if x != m}, self.scale(self.polys[q], c))
            s = max(abs(y) for y in P.values())
            rest = {x: y for x, y in rest.items() if abs(y) > TOL * s}
            if not self.isconst(rest):
                continue
            k = self.cval(rest)
            if kind == 'trunc':
                return (k - abs(c), False, k + abs(c), False)
            return (k, True, k - c, False) if c < 0 else (k - c, False, k, True)
        return None

    def _atomsign(self, a, st):
        """'+' or '-' where the atom is known to be positive or negative (never zero), else None"""
        key = (a, id(st))
        if key in self._asg:
            return self._asg[key]
        self._asg[key] = None
        r = st.asm.get(self.intern(self.av(a)))
        if r not in ('+', '-'):
            r = None
        k = self.atoms[a]
        if r is None and k[0] in ('inv', 'sqrt'):
            l, e = self.signatoms(self.polys[k[1]], st)
            if not e and self.isconst(l):
                r = '-' if l and k[0] == 'inv' else '+' if not l else None
        self._asg[key] = r
        return r

    def _strip(self, P, st):
        """P without the monomial factors of known sign"""
        if () in P:
            return P
        k, mono, Q = self.content(P)
        if not mono:
            return P
        keep, flip = [], ONE
        for a, e in mono:
            s = self._atomsign(a, st)
            if s is None:
                keep.append((a, e))
            elif s == '-' and e % 2:
                flip = -flip
        if len(keep) == len(mono):
            return P
        if keep:
            Q = self.mul(Q, {tuple(keep): ONE})
        return self.scale(Q, k * flip)

    def _sumsign(self, P, st):
        """sign of a sum of terms of one sign"""
        if len(P) > 12:
            return None
        strict, sg = False, None
        for m, c in P.items():
            s = 1 if c > 0 else -1
            pos = True
            for a, e in m:
                t = self._atomsign(a, st)
                if t is None:
                    if e % 2 and not (self.atoms[a][0] in NONNEG or a in self.nonneg):
                        return None
                    pos = False
                elif t == '-' and e % 2:
                    s = -s
            if sg is None:
                sg = s
            elif sg != s:
                return None
            strict = strict or pos
        return ('+' if sg > 0 else '-') + ('' if strict else '0')

    def fact(self, P, s):
        """a lemma of the caller: P < 0 ('-'), <= 0 ('-0'), >= 0 ('+0') or > 0 ('+') for all inputs considered"""
        self._asg.clear()
        k = P[max(P, key=self.order)]
        if k < 0:
            s = {'-': '+', '+': '-', '+0': '-0', '-0': '+0', '0': '0'}[s]
        self.root.asm[self.intern({m: x / k for m, x in P.items()})] = s

    def abs(self, P, st=None):
        if self.isconst(P):
            return {(): abs(self.cval(P))} if P else {}
        L, E = self.signatoms(P, st)
        return self.sub(P, self.scale(self.mul(P, L), TWO))

    def splitint(self, P):
        I, F = {}, {}
        for m, c in P.items():
            n = c.to_integral_value()
            if self.isint(m) and abs(c - n) <= TOL * max(ONE, abs(n)):
                I[m] = n
            else:
                F[m] = c
        if () in F:
            n = F[()].to_integral_value(rounding='ROUND_FLOOR')
            if n:
                I[()] = I.get((), ZERO) + n
                r = F[()] - n
                if r:
                    F[()] = r
                else:
                    del F[()]
        return I, F

    def floor(self, P):
        I, F = self.splitint(P)
        if self.isconst(F):
            return self.add(I, {(): self.cval(F).to_integral_value(rounding='ROUND_FLOOR')}) if F else I
        g = self._gate_in(F)
        if g is not None:
            a, b = self.floor(self.setbool(F, g, ONE)), self.floor(self.setbool(F, g, ZERO))
            return self.add(I, self.add(b, self.mul(self.sub(a, b), self.av(g))))
        # floor((floor(Q) + n)/b) = floor((Q + n)/b)
        for m, c in F.items():
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == 'floor' and c:
                b = ONE / c
                nb = b.to_integral_value()
                if nb >= 1 and abs(b - nb) <= TOL * nb:
                    rest = dict(F)
                    del rest[m]
                    if all(self.isint(x) and abs(y * nb - (y * nb).to_integral_value()) <= TOL * max(ONE, abs(y * nb)) for x, y in rest.items()):
                        Q = self.polys[self.atoms[m[0][0]][1]]
                        return self.add(I, self.floor(self.add(self.scale(Q, ONE / nb), rest)))
        return self.add(I, self.av(self.atom('floor', self.intern(F))))

    def integral(self, P):
        return all(self.isint(m) and abs(c - c.to_integral_value()) <= TOL * max(ONE, abs(c)) for m, c in P.items())

    def trunc(self, P, iv):
        if self.integral(P):
            return P
        if iv[0] > -1 and iv[1] < 1 and not iv[2]:
            return {}
        if iv[0] >= 0:
            return self.floor(P)
        if iv[1] <= 0:
            return self.scale(self.floor(self.scale(P, -ONE)), -ONE)
        if self.isconst(P):
            return self.const(D(int(self.cval(P))))
        if self.clean:
            P = self.clean(P)
        b = self.ranger(self, P) if self.ranger else None
        if b:
            if b[0] >= -1 and b[2] <= 1 and not (b[0] == -1 and b[1]) and not (b[2] == 1 and b[3]):
                return {}
            if b[0] >= 0:
                return self.floor(P)
            if b[2] <= 0:
                return self.scale(self.floor(self.scale(P, -ONE)), -ONE)
        if self._gate_in(P) is None:
            k = P[max(P, key=self.order)]
            g = self.root.asm.get(self.intern({m: x / k for m, x in P.items()}))
            if g in ('+', '+0', '-', '-0'):
                if (g[0] == '+') == (k > 0):
                    return self.floor(P)
                return self.scale(self.floor(self.scale(P, -ONE)), -ONE)
        s, Q = self.orient(P)
        return {((self.atom('trunc', self.intern(Q)), 1),): s}

    # ------------------------------------------------------------ graph -> polynomial
    def sens(self, n):
        r = self._sens.get(n)
        if r is None:
            r = n.op in SENS or any(self.sens(a) for a in n.args)
            self._sens[n] = r
        return r

    def nf(self, n, st=None):
        st = st or self.root
        while st.parent is not None and not self.sens(n):
            st = st.parent
        r = st.memo.get(n)
        if r is None:
            r = st.memo[n] = self._nf(n, st)
        return r

    def given(self, st, c, val):
        """the state in which condition c has the value val, None if impossible"""
        key = (c, val)
        if key in st.kids:
            return st.kids[key]
        d = st.ctx.decide(c)
        s2 = None
        if d is None or d == val:
            cx = st.ctx.assume(c, val)
            if cx is not None:
                asm = st.asm
                neg, b = False, c
                while b.op == 'not':
                    neg, b = not neg, b.args[0]
                v = val != neg
                add = self._sign_fact(b, v, st)
                if add:
                    asm = dict(asm)
                    asm.update(add)
                s2 = State(cx, asm, st)
        st.kids[key] = s2
        return s2

    def _sign_fact(self, b, v, st):
        if b.op in ('flt', 'fle', 'ilt0'):
            try:
                P = self.sub(self.nf(b.args[0], st), self.nf(b.args[1], st)) if b.op != 'ilt0' else self.nf(b.args[0], st)
            except (Inexact, TooBig):
                return None
            if self.isconst(P) or self._gate_in(P) is not None:
                return None
            k = P[max(P, key=self.order)]
            i = self.intern({m: c / k for m, c in P.items()})
            if b.op in ('flt', 'ilt0'):
                s = '-' if v else None
            else:
                s = None if v else '+'
            if s is None:
                # weak: >= 0 or <= 0; boundary ignored only when deciding the opposite strict sign
                s = '+0' if b.op in ('flt', 'ilt0') else '-0'
            if k < 0:
                s = {'-': '+', '+': '-', '+0': '-0', '-0': '+0', '0': '0'}[s]
            return {i: s}
        return None

    def cond(self, c, st):
        """indicator polynomial of a condition"""
        while st.parent is not None and not self.sens(c):
            st = st.parent
        r = st.memo.get(c)
        if r is None:
            r = st.memo[c] = self._cond(c, st)
        return r

    def _cond(self, c, st):
        d = st.ctx.decide(c)
        if d is not None:
            return {(): ONE} if d else {}
        op = c.op
        if op == 'not':
            return self.sub({(): ONE}, self.cond(c.args[0], st))
        if op == 'bite':
            return self.gate(c.args[0], lambda s: self.cond(c.args[1], s), lambda s: self.cond(c.args[2], s), st)
        if op == 'bs':
            return self.av(self.atom('bool', c.p))
        if op == 'bopq':
            return self.av(self.atom('bool', c.p, tuple(self.intern(self.anynf(a, st)) for a in c.args)))
        if op in ('flt', 'fle', 'feq'):
            P = self.sub(self.nf(c.args[0], st), self.nf(c.args[1], st))
            for x in c.args:
                # a tiny threshold is no rounding residue
                k = abs(D(N.cval(x))) if x.op == 'fc' and N.cval(x) == N.cval(x) and abs(N.cval(x)) != float('inf') else ZERO
                if k and P.get(()) is not None and abs(abs(P[()]) - k) < k * ITOL and not self.isconst(P) and k <= EPSC * max(abs(v) for v in P.values()):
                    P = dict(P)
                    s = ONE if P.pop(()) > 0 else -ONE
                    P = self.add(P, self.scale(self.av(self.atom('sym', 'threshold %s' % k)), s))
        else:
            P = self.nf(c.args[0], st)
        i = None
        if not self.isconst(P) and self._gate_in(P) is None:
            k = P[max(P, key=self.order)]
            i = self.intern({m: x / k for m, x in P.items()})
            s = st.asm.get(i)
            if s:
                if k < 0:
                    s = {'-': '+', '+': '-', '+0': '-0', '-0': '+0', '0': '0'}[s]
                if op in ('flt', 'ilt0'):
                    if s in ('+', '+0'):
                        return {}
                    if s == '-':
                        return {(): ONE}
                elif op == 'fle':
                    if s == '+':
                        return {}
                    if s in ('-', '-0'):
                        return {(): ONE}
                else:
                    if s in ('+', '-'):
                        return {}
        L, E = self.signatoms(P, st)
        if op in ('flt', 'ilt0'):
            return L
        if op == 'fle':
            return self.add(L, E)
        return E

    def anynf(self, n, st):
        return self.cond(n, st) if n.kind == 'b' else self.nf(n, st)

    def gate(self, c, fa, fb, st):
        G = self.cond(c, st)
        if self.isconst(G):
            return fa(st) if self.cval(G) else fb(st)
        sa, sb = self.given(st, c, True), self.given(st, c, False)
        if sa is None:
            return fb(st)
        if sb is None:
            return fa(st)
        A, B = fa(sa), fb(sb)
        return self.add(B, self.mul(self.sub(A, B), G))

    def _nf(self, n, st):
        if n in self.bind:
            return self.bind[n]
        if n in self.cut:
            return self.av(self.atom('sym', self.cut[n]))
        op = n.op
        nf = self.nf
        if op == 'fc':
            return self.const(N.cval(n))
        if op == 'ic':
            return self.const(D(n.p))
        if op in ('fs', 'fopq'):
            a = self.atom('sym', n.p if op == 'fs' else ('opq', n.id))
            if N.SYMR.get(n, N.TOP)[0] >= 0:
                self.nonneg.add(a)
            return self.av(a)
        if op in ('is', 'iopq'):
            if op == 'iopq' and n.args:
                return self.av(self.atom('int', n.p, tuple(self.intern(self.anynf(a, st)) for a in n.args)))
            return self.av(self.atom('int', n.p if op == 'is' else ('opq', n.id)))
        if op in ('fite', 'iite'):
            return self.gate(n.args[0], lambda s: nf(n.args[1], s), lambda s: nf(n.args[2], s), st)
        if op == 'ffun':
            return self.av(self.atom('fun', n.p, tuple(self.intern(self.anynf(a, st)) for a in n.args)))
        if op == 'lin':
            c, ks = n.p
            r = self.const(D(c))
            for a, k in zip(n.args, ks):
                r = self.add(r, self.scale(nf(a, st), D(k)))
            return r
        if op == 'idv':
            return self.floor(self.scale(nf(n.args[0], st), ONE / D(n.p)))
        if op == 'imul':
            return self.mul(nf(n.args[0], st), nf(n.args[1], st))
        if op == 'f2i':
            A = st.ctx.iv(n.args[0])
            if A[0] > n.p[0] - 1 and A[1] < n.p[1] + 1 and not A[2]:
                return self.trunc(nf(n.args[0], st), A)
            return self.av(self.atom('int', 'f2i', n.p, self.intern(nf(n.args[0], st))))
        if op in ('itd', 'itm', 'iwrap', 'ibit'):
            return self.av(self.atom('int', op, n.p, tuple(self.intern(nf(a, st)) for a in n.args)))
        a = nf(n.args[0], st)
        if op == 'i2f':
            return a
        if op == 'fneg':
            return self.scale(a, -ONE)
        if op == 'fabs':
            A = st.ctx.iv(n.args[0])
            if A[0] >= 0:
                return a
            if A[1] <= 0:
                return self.scale(a, -ONE)
            return self.abs(a, st)
        if op == 'fsqrt':
            return self.sqrt(a)
        if op == 'fsin':
            return self.sincos(a)[0]
        if op == 'fcos':
            return self.sincos(a)[1]
        if op == 'ftan':
            s, c = self.sincos(a)
            return self.mul(s, self.inv(c))
        if op in ('fatan', 'fasin', 'facos'):
            if not a and op != 'facos':
                return {}
            g = self._gate_in(a)
            if g is not None:
                x1, x0 = self.fn1(op[1:], self.setbool(a, g, ONE)), self.fn1(op[1:], self.setbool(a, g, ZERO))
                return self.add(x0, self.mul(self.sub(x1, x0), self.av(g)))
            return self.fn1(op[1:], a)
        if op == 'ffloor':
            return self.floor(a)
        if op == 'fceil':
            return self.scale(self.floor(self.scale(a, -ONE)), -ONE)
        if op == 'ftrunc':
            return self.trunc(a, st.ctx.iv(n.args[0]))
        if op in ('fround', 'froundeven'):
            if self.integral(a):
                return a
            s, Q = self.orient(a)
            return {((self.atom('round', self.intern(Q)), 1),): s}
        if len(n.args) == 1:
            return self.av(self.atom('fun', op, (self.intern(a),)))
        b = nf(n.args[1], st)
        if op == 'fadd':
            return self.add(a, b)
        if op == 'fsub':
            return self.sub(a, b)
        if op == 'fmul':
            return self.mul(a, b)
        if op == 'fdiv':
            return self.mul(a, self.inv(b))
        if op == 'frem':
            x, m = n.args
            q = N.iv_div(st.ctx.iv(x), st.ctx.iv(m))
            t = self.trunc(self.mul(a, self.inv(b)), q)
            return self.sub(a, self.mul(b, t))
        if op == 'fatan2':
            if not a and not b:
                return {}
            return self.atan2(a, b)
        if op == 'ffma':
            return self.add(self.mul(a, b), nf(n.args[2], st))
        if op in ('fmin', 'fmax'):
            L, E = self.signatoms(self.sub(a, b), st)
            d = self.mul(self.sub(a, b), L)
            return self.add(b, d) if op == 'fmin' else self.sub(a, d)
        if op == 'fcopysign':
            L, E = self.signatoms(b, st)
            return self.mul(self.abs(a, st), self.sub({(): ONE}, self.scale(L, TWO)))
        if op == 'fpow' and self.isconst(b) and self.cval(b) == self.cval(b).to_integral_value() and abs(self.cval(b)) <= 64:
            return self.power(a, int(self.cval(b)))
        if op == 'fpow' and self.isconst(b) and self.cval(b) == HALF:
            return self.sqrt(a)
        return self.av(self.atom('fun', op, tuple(self.intern(nf(x, st)) for x in n.args)))

    def atan2(self, a, b):
        for P in (a, b):
            g = self._gate_in(P)
            if g is not None:
                x1 = self.atan2(self.setbool(a, g, ONE), self.setbool(b, g, ONE))
                x0 = self.atan2(self.setbool(a, g, ZERO), self.setbool(b, g, ZERO))
                return self.add(x0, self.mul(self.sub(x1, x0), self.av(g)))
        if not a and not b:
            return {}
        ref = a or b
        k = abs(ref[max(ref, key=self.order)])
        return self.av(self.atom('atan2', self.intern(self.scale(a, ONE / k)), self.intern(self.scale(b, ONE / k))))

    def fn1(self, name, a):
        if not a:
            return {} if name != 'acos' else {(): QUART}
        if name == 'acos':
            return self.av(self.atom('acos', self.intern(a)))
        s, Q = self.orient(a)
        return {((self.atom(name, self.intern(Q)), 1),): s}

    # ------------------------------------------------------------ comparison
    def near(self, A, B, tol=TOL):
        s = max([abs(c) for c in A.values()] + [abs(c) for c in B.values()] + [ZERO])
        t = s * EPSC * 4
        bad = []
        for m in set(A) | set(B):
            x, y = A.get(m, ZERO), B.get(m, ZERO)
            if abs(x - y) > tol * max(abs(x), abs(y)) and abs(x - y) > t:
                bad.append((m, x, y))
        return bad

    def differ(self, A, B, mod=False, tol=TOL):
        """monomials in which A and B disagree after clearing denominators (empty: equal)"""
        if mod:
            A, B = self.dropturns(A), self.dropturns(B)
            if () in A and abs(A[()]) > TURN or () in B and abs(B[()]) > TURN:
                A, B = dict(A), dict(B)
                for Q in (A, B):
                    if () in Q:
                        Q[()] %= TURN
            Dn = self.dropturns(self.sub(A, B))
            # small residues of equal coefficients
            A2 = {m: c for m, c in Dn.items() if abs(c) > tol * max(abs(A.get(m, ZERO)), abs(B.get(m, ZERO)))}
            s = max([abs(c) for c in A.values()] + [ONE])
            A2 = {m: c for m, c in A2.items() if abs(c) > s * EPSC * 4 and not (m == () and abs(c) < max(tol * 8, D('1e-14')))}
            return [(m, c, ZERO) for m, c in A2.items()]
        bad = bad0 = self.near(A, B, tol)
        if not bad:
            return bad
        for _ in range(6):
            den = None
            for m, x, y in bad:
                for a, e in m:
                    if self.atoms[a][0] == 'inv' or e < 0:
                        den = (a, e)
                        break
                if den:
                    break
            if den is None:
                break
            a, e = den
            if self.atoms[a][0] == 'inv':
                M = self.power(self.polys[self.atoms[a][1]], max(abs(dict(m).get(a, 0)) for m, _, _ in bad))
            else:
                M = self.power(self.av(a), max(-dict(m).get(a, 0) for m, _, _ in bad))
            # only the differing part needs to vanish
            dA = self.mulexp({m: x for m, x, y in bad if x}, M)
            dB = self.mulexp({m: y for m, x, y in bad if y}, M)
            bad = self.near(dA, dB, tol)
            if not bad:
                return bad
        if bad:
            P = self.cleared({m: x for m, x, y in bad0 if x}, {m: y for m, x, y in bad0 if y})
            if P is not None and not self.near(*P, tol):
                return []
        return bad

    def cleared(self, A, B, steps=8):
        """the two sides multiplied by the same denominators until none is left, each inverse taken out by its exponent"""
        l, self.limit = self.limit, 200000
        try:
            for _ in range(steps):
                i = max((a for P in (A, B) for m in P for a, _ in m if self.atoms[a][0] == 'inv'), default=None)
                if i is None:
                    return A, B
                Q = self.polys[self.atoms[i][1]]
                e = max(dict(m).get(i, 0) for P in (A, B) for m in P)
                pw = [{(): ONE}]
                for _ in range(e):
                    pw.append(self.mul(pw[-1], Q))
                out = []
                for P in (A, B):
                    R = {}
                    for k in range(e + 1):
                        part = {tuple((a, x) for a, x in m if a != i): c for m, c in P.items() if dict(m).get(i, 0) == k}
                        if part:
                            R = self.add(R, self.mul(part, pw[e - k]))
                    out.append(R)
                A, B = out
        except (TooBig, Inexact):
            pass
        finally:
            self.limit = l
        return None

    def mulexp(self, A, M):
        l, self.limit = self.limit, 10**7
        try:
            return self.mul(A, M)
        finally:
            self.limit = l

    # ------------------------------------------------------------ derivative
    def diff(self, P, sym):
        out = {}
        for m, c in P.items():
            for i, (a, e) in enumerate(m):
                d = self.datom(a, sym)
                if not d:
                    continue
                rest = m[:i] + (((a, e - 1),) if e != 1 else ()) + m[i + 1:]
                T = self.mul({rest: c * D(e)}, d)
                out = self.add(out, T)
        return out

    def datom(self, a, sym):
        k = self.atoms[a]
        memo = self.__dict__.setdefault('_dm', {})
        key = (a, sym)
        if key in memo:
            return memo[key]
        memo[key] = r = self._datom(a, k, sym)
        return r

    def _datom(self, a, k, sym):
        if a == sym:
            return {(): ONE}
        if k[0] in INTK or k[0] == 'sym':
            return {}
        if k[0] == 'fun':
            if any(self.diff(self.polys[i], sym) for i in k[2]):
                raise Inexact('derivative of ' + str(k[1]))
            return {}
        if k[0] == 'atan2':
            raise Inexact('derivative of atan2')
        d = self.diff(self.polys[k[1]], sym)
        if not d:
            return {}
        if k[0] == 'sin':
            return self.mul(d, self.av(self.akey[('cos', k[1])]))
        if k[0] == 'cos':
            return self.scale(self.mul(d, self.av(self.akey[('sin', k[1])])), -ONE)
        if k[0] == 'poly':
            return d
        if k[0] == 'inv':
            return self.scale(self.mul(d, self.power(self.av(a), 2)), -ONE)
        if k[0] == 'sqrt':
            return self.scale(self.mul(d, self.inv(self.av(a))), HALF)
        raise Inexact('derivative of ' + k[0])

    # ------------------------------------------------------------ printing
    def sh(self, P, n=6):
        if isinstance(P, int):
            P = self.polys[P]
        s = []
        for m, c in sorted(P.items(), key=lambda x: self.order(x[0]))[:n]:
            s.append('%.12g%s' % (c, ''.join('*' + self.sa(a) + ('^%d' % e if e != 1 else '') for a, e in m)))
        return ' + '.join(s) + (' + ...(%d terms)' % len(P) if len(P) > n else '') if P else '0'

    def sa(self, a):
        k = self.atoms[a]
        if k[0] == 'sym':
            return str(k[1])
        if k[0] in ('sin', 'cos', 'sqrt', 'inv', 'atan', 'acos', 'asin', 'floor', 'trunc', 'round', 'poly', 'lt', 'eq'):
            nm = {'lt': 'neg', 'eq': 'zero'}.get(k[0], k[0])
            return '%s(%s)' % (nm, self.sh(k[1], 3))
        if k[0] == 'atan2':
            return 'atan2(%s,%s)' % (self.sh(k[1], 3), self.sh(k[2], 3))
        if k[0] == 'fun':
            return '%s(..)' % (k[1],)
        return '%s%s' % (k[0], k[1:2])

    def showbad(self, bad, n=3):
        out = []
        for m, x, y in bad[:n]:
            t = '*'.join(self.sa(a) + ('^%d' % e if e != 1 else '') for a, e in m) or '1'
            out.append('coefficient of %s is %.13g, expected %.13g' % (t[:160], x, y))
        return '; '.join(out) + ('; ... %d terms differ' % len(bad) if len(bad) > n else '')
