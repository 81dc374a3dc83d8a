"""Common part of the checks: the dump of /repo, obligations, evidence, verdict."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)

import nodes as N            # noqa: E402
from nodes import Ctx, INF   # noqa: E402
from interp import Prog, Interp, Agg, IteVal, Ref, Str, Undecided, DIVERGED, UNINIT  # noqa: E402
from nf import Alg, Inexact, TooBig, TOL, D, ONE, ZERO, TURN, QUART, dec  # noqa: E402

REPO = os.environ.get('TOFAS_REPO', '/repo')
TRUST = ['rustc (nightly) lowering of the source to MIR', 'engine/interp.py: value graph of a MIR body (joins at post-dominators)',
         'engine/nodes.py: interval transfer functions', 'engine/nf.py: canonical forms over the reals',
         'engine/natives.py: models of the core functions without MIR (f64 methods, iterators, formatting)']
ASSUME = ['f64 follows IEEE 754 with round to nearest; sin, cos, atan, ... are the real functions up to rounding',
          'equalities of formulas are decided over the reals, coefficients to 1e-12; rounding is bounded only where a check says so']


class Broken(Exception):
    """the tree cannot be analysed at all"""


class Check:
    def __init__(self, pid, level='proof', technique=''):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in sys.argv:
            self.tier = 'thorough'
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.obs = []            # (name, ok, detail, where)
        self.fns = set()
        self.steps = 0
        self.notes = {}
        self.assume = list(ASSUME)
        self.tmp = None
        self.build_out = ''
        self.progs = {}
        self.profile = 'debug'
        self.bulk = 0            # further obligations discharged cell by cell

    # ---------------------------------------------------------------- the dump
    def dump(self):
        if self.tmp:
            return self.tmp
        drv = os.path.join(HERE, 'build', 'mirdump')
        if not os.path.exists(drv) or os.path.getmtime(drv) < os.path.getmtime(os.path.join(HERE, 'driver', 'main.rs')):
            r = subprocess.run(['bash', os.path.join(HERE, 'driver', 'build.sh')], capture_output=True, text=True)
            if r.returncode:
                raise Broken('driver does not build: ' + r.stderr[-2000:])
        self.tmp = tempfile.mkdtemp(prefix='vf-%s-' % self.pid.lower())
        r = subprocess.run(['bash', os.path.join(HERE, 'tools', 'dump.sh'), self.tmp, REPO], capture_output=True, text=True, env=dict(os.environ, TOFAS_PROFILE=self.profile))
        if r.returncode:
            raise Broken('the tree does not compile: ' + r.stderr[-3000:])
        self.build_out = r.stdout
        return self.tmp

    def prog(self, name='tofas.lib'):
        p = self.progs.get(name)
        if p is None:
            f = os.path.join(self.dump(), name + '.json')
            if not os.path.exists(f):
                raise Broken('no dump of ' + name)
            p = self.progs[name] = Prog(f)
        return p

    # ---------------------------------------------------------------- obligations
    def ob(self, name, ok, detail='', where=''):
        self.obs.append((name, bool(ok), detail, where))
        return bool(ok)

    def where(self, key, prog='tofas.lib'):
        p = self.prog(prog)
        for it in p.d['items']:
            if it['key'] == key:
                return '%s (%s)' % (it.get('span', '?'), key)
        return key

    def count(self, s):
        self.steps += s.steps
        self.fns |= set(s.entered)

    def attempt(self, name, key, f):
        """runs an analysis; anything it cannot decide is an undischarged obligation"""
        try:
            return f()
        except Undecided as e:
            self.ob(name, False, 'not decided: %s' % e, self.where(key) if key else '')
        except (Inexact, TooBig) as e:
            self.ob(name, False, 'no canonical form: %s %s' % (type(e).__name__, e), self.where(key) if key else '')
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError) as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.ob(name, False, 'anchor or shape not found: %s %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno),
                    self.where(key) if key else '')
        return None

    # ---------------------------------------------------------------- verdict
    def finish(self, floor=1):
        bad = [o for o in self.obs if not o[1]]
        if len(self.obs) < floor:
            bad.append(('coverage', False, 'only %d obligations were generated, at least %d expected' % (len(self.obs), floor), ''))
        known = self.known()
        new, old = [], []
        for o in bad:
            k = next((x for x in known if x in o[0]), None)
            (old if k else new).append(o)
        for o in dict.fromkeys(o[0] for o in old):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, o))
        cov = {'obligations': len(self.obs) + self.bulk, 'discharged': sum(1 for o in self.obs if o[1]) + self.bulk,
               'checker_cmd': 'bash /verif/checks/run.sh %s' % self.pid, 'trusted_base': TRUST,
               'functions': sorted(f for f in self.fns if 'tofas' in f)[:400], 'functions_entered': len(self.fns),
               'mir_blocks_interpreted': self.steps,
               'samples': ['%s: %s' % (o[0], 'holds' if o[1] else o[2]) for o in self.obs[:: max(1, len(self.obs) // 12)]][:14]}
        cov.update(self.notes)
        if self.level == 'other':
            cov['explanation'] = self.notes.get('rule', 'static queries over the type-checked program')
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': self.level,
              'coverage': cov, 'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(new)}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        path = os.path.join(HERE, 'evidence', self.pid + '.json')
        with open(path + '.tmp%d' % os.getpid(), 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(path + '.tmp%d' % os.getpid(), path)
        self.clean()
        rp = os.path.join(HERE, 'evidence', self.pid + '.violation.txt')
        if os.path.exists(rp):
            os.remove(rp)
        if new:
            with open(rp, 'w') as f:
                for o in new:
                    f.write('%s\n  rule: %s\n  at: %s\n' % (o[2], o[0], o[3]))
            for o in new[:int(os.environ.get("TOFAS_SHOW", "12"))]:
                print('%s: %s [%s]' % (o[3] or '-', o[2], o[0]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        print('%s: %d obligations discharged, %d functions, %.1f s' % (self.pid, cov['discharged'], len(self.fns), time.time() - self.t0))
        return 0

    def known(self):
        out = []
        try:
            with open(os.path.join(HERE, 'known_findings.txt')) as f:
                for l in f:
                    if l.startswith('open: property=%s ' % self.pid):
                        out.append(l.split('what=', 1)[1].strip())
        except OSError:
            pass
        return out

    def clean(self):
        if self.tmp and os.path.isdir(self.tmp) and os.path.basename(self.tmp).startswith('vf-'):
            shutil.rmtree(self.tmp, ignore_errors=True)
            self.tmp = None


def profile_dependent():
    """does a source file test the build profile itself (assertion macros aside)?"""
    for d, _, fs in os.walk(os.path.join(REPO, 'crates')):
        for f in fs:
            if f.endswith('.rs') and '/target' not in d:
                with open(os.path.join(d, f), errors='replace') as h:
                    s = h.read()
                if 'debug_assertions' in s or 'overflow_checks' in s:
                    return True
    return False


KIDS = []
LIMIT = int(os.environ.get('TOFAS_LIMIT', '600'))


def main(pid, body, floor=1, level='proof'):
    """runs the body of a check in a thread with a deep stack"""
    res = [2]
    c = Check(pid, level)

    def run():
        try:
            body(c)
            if c.tier == 'thorough' or profile_dependent():
                # once more as compiled without debug assertions and overflow checks
                c.clean()
                n = len(c.obs)
                c.progs, c.tmp, c.profile = {}, None, 'release'
                body(c)
                c.obs[n:] = [('%s (release profile)' % o[0],) + o[1:] for o in c.obs[n:]]
                c.notes['profiles'] = ['debug', 'release']
            res[0] = c.finish(floor)
        except Broken as e:
            c.clean()
            print('%s: cannot run: %s' % (pid, e))
            res[0] = 2
        except BaseException as e:
            import traceback
            traceback.print_exc()
            c.ob('analysis', False, 'the analysis stopped: %s %s' % (type(e).__name__, e), '')
            res[0] = c.finish(0)
    t = threading.Thread(target=run)
    t.start()
    t.join(LIMIT * (1.3 if c.tier == 'thorough' else 1))
    if t.is_alive():
        # an obligation of this program is too large to decide: reported like any other undecided one
        c.ob('time', False, 'not decided within %d s; last obligation decided: %s' % (LIMIT, c.obs[-1][0] if c.obs else 'none'), '')
        for k in KIDS:
            try:
                os.kill(k, 9)
            except OSError:
                pass
        c.clean()
        res[0] = c.finish(0)
    sys.stdout.flush()
    os._exit(res[0])


# -------------------------------------------------------------------- values
def fieldnames(p, v):
    t = p.types[v.ty]
    return [n for n, _ in t['v'][v.v or 0]['f']]


def get(p, v, name):
    """field of a struct value by its name, element of a tuple or array by its number"""
    for part in str(name).split('.'):
        if v.__class__ is IteVal:
            v = IteVal(v.c, get(p, v.a, part), get(p, v.b, part))
            v = collapse(v)
            continue
        if part.isdigit():
            v = v.f[int(part)]
        else:
            v = v.f[fieldnames(p, v).index(part)]
    return v


def collapse(v):
    """a gated scalar is a scalar gate"""
    if v.__class__ is IteVal:
        a, b = collapse(v.a), collapse(v.b)
        if isinstance(a, N.Node) and isinstance(b, N.Node):
            return N.ite(v.c, a, b)
        if a.__class__ is Agg and b.__class__ is Agg and a.ty == b.ty and a.v == b.v and len(a.f) == len(b.f):
            return Agg(a.ty, a.v, tuple(collapse(IteVal(v.c, x, y)) for x, y in zip(a.f, b.f)))
        return IteVal(v.c, a, b)
    return v


def fill(p, ty, it):
    """a value of the type from an iterator over its scalar leaves"""
    t = p.types[ty]
    k = t['k']
    if k in ('float', 'int', 'bool', 'char'):
        return next(it)
    if k == 'tuple':
        return Agg(ty, None, tuple(fill(p, x, it) for x in t['f']))
    if k == 'array':
        return Agg(ty, None, tuple(fill(p, t['e'], it) for _ in range(t['n'])))
    if k == 'adt' and t['kind'] == 'Struct':
        return Agg(ty, 0, tuple(fill(p, x, it) for _, x in t['v'][0]['f']))
    raise Undecided('cannot build a value of type ' + p.tyname(ty))


def call(c, key, *args, prog='tofas.lib', s=None, alarms=True, allow=(), **kw):
    """value graph of a call; each argument a node, a list of scalar leaves or a value"""
    p = c.prog(prog)
    s = s or Interp(p, **kw)
    if key not in p.fns:
        raise KeyError('no function ' + key)
    body = p.fns[key]['body']
    tys = [body['locals'][i + 1] for i in range(body['argc'])]
    if len(tys) != len(args):
        raise KeyError('%s takes %d arguments, %d expected' % (key, len(tys), len(args)))
    vals = []
    for ty, a in zip(tys, args):
        t = p.types[ty]
        ref = t['k'] in ('ref', 'ptr')
        ety = t['e'] if ref else ty
        if a is None:
            vals.append(s.sym(ty, 'arg%d' % len(vals)))
            continue
        if isinstance(a, (list, tuple)):
            a = fill(p, ety, iter(a))
        if ref and a.__class__ is not Ref:
            a = Ref(s.alloc(a))
        vals.append(a)
    n0 = len(s.alarms)
    r = s.run(key, vals)
    c.count(s)
    if alarms:
        for a in s.alarms[n0:]:
            if not any(x in str(a) for x in allow):
                c.ob('%s does not panic' % key, False, str(a), c.where(key, prog))
    return r


def fvar(name, lo=-1e12, hi=1e12, nan=False):
    return N.fs(name, lo, hi, nan)


def scalars(v, path=''):
    v = collapse(v)
    if isinstance(v, N.Node):
        return [(path, v)]
    if v.__class__ is Agg:
        out = []
        for i, x in enumerate(v.f):
            out += scalars(x, path + '.%d' % i)
        return out
    return [(path, v)]


def variants(p, v, ctx=None):
    """outcomes of an enum value: list of (condition context, variant name, Agg)"""
    ctx = ctx or Ctx()
    out = []

    def go(v, cx):
        while v.__class__ is IteVal:
            d = cx.decide(v.c)
            if d is not None:
                v = v.a if d else v.b
                continue
            ca, cb = cx.assume(v.c, True), cx.assume(v.c, False)
            if ca is not None:
                go(v.a, ca)
            if cb is not None:
                go(v.b, cb)
            return
        t = p.types[v.ty]
        out.append((cx, t['v'][v.v]['name'], v))
    go(v, ctx)
    return out


# -------------------------------------------------------------------- polynomials with operators
class X:
    __slots__ = ('A', 'p')

    def __init__(self, A, p):
        self.A, self.p = A, p

    def _c(self, o):
        if isinstance(o, X):
            return o.p
        if isinstance(o, dict):
            return o
        if isinstance(o, (int, str)):
            o = D(o)
        return self.A.const(o)

    def __add__(self, o):
        return X(self.A, self.A.add(self.p, self._c(o)))
    __radd__ = __add__

    def __sub__(self, o):
        return X(self.A, self.A.sub(self.p, self._c(o)))

    def __rsub__(self, o):
        return X(self.A, self.A.sub(self._c(o), self.p))

    def __neg__(self):
        return X(self.A, self.A.scale(self.p, -ONE))

    def __mul__(self, o):
        return X(self.A, self.A.mul(self.p, self._c(o)))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return X(self.A, self.A.mul(self.p, self.A.inv(self._c(o))))

    def __rtruediv__(self, o):
        return X(self.A, self.A.mul(self._c(o), self.A.inv(self.p)))

    def __pow__(self, n):
        return X(self.A, self.A.power(self.p, n))

    def sin(self):
        return X(self.A, self.A.sincos(self.p)[0])

    def cos(self):
        return X(self.A, self.A.sincos(self.p)[1])

    def sqrt(self):
        return X(self.A, self.A.sqrt(self.p))

    def atan(self):
        return X(self.A, self.A.fn1('atan', self.p))

    def acos(self):
        return X(self.A, self.A.fn1('acos', self.p))

    def floor(self):
        return X(self.A, self.A.floor(self.p))

    def neg(self):
        """indicator of < 0"""
        return X(self.A, self.A.signatoms(self.p)[0])

    def zero(self):
        return X(self.A, self.A.signatoms(self.p)[1])

    def abs(self):
        return X(self.A, self.A.abs(self.p))


def con(A, c):
    return X(A, A.const(D(c) if isinstance(c, (int, str)) else c))


def sym(A, name):
    return X(A, A.av(A.atom('sym', name)))


def atan2(y, x):
    return X(y.A, y.A.atan2(y.p, x.p))


def gate(g, a, b):
    return g * (a - b) + b


def matmul(a, b):
    return [[sum_([a[i][k] * b[k][j] for k in range(3)]) for j in range(3)] for i in range(3)]


def sum_(l):
    r = l[0]
    for x in l[1:]:
        r = r + x
    return r


def rot(axis, th):
    A = th.A
    c, s = th.cos(), th.sin()
    z = con(A, 0)
    r = [[z, z, z], [z, z, z], [z, z, z]]
    i, j = (axis + 1) % 3, (axis + 2) % 3
    r[i][i], r[i][j], r[j][i], r[j][j], r[axis][axis] = c, s, -s, c, con(A, 1)
    return r


def eq(c, name, A, node, want, where='', mod=False, boundary=True, tol=TOL):
    """obligation: the node denotes the polynomial want (over the reals)"""
    got = node.p if isinstance(node, X) else (A.nf(node) if node.kind != 'b' else A.cond(node, A.root))
    w = want.p if isinstance(want, X) else want
    g0, w0 = got, w
    if boundary:
        # off the boundary of any comparison (a set of measure zero)
        got, w = dropeq(A, got), dropeq(A, w)
    bad = A.differ(got, w, mod, tol)
    if not bad and boundary is True and g0 is not got:
        # and on the boundary where that fixes one of the inputs; where it does not, either side is accepted
        for e in sorted({a for P in (g0, w0) for m in P for a, _ in m if A.atoms[a][0] == 'eq'}):
            for a, q in solve(A, A.polys[A.atoms[e][1]]):
                try:
                    g1, w1 = [dropeq(A, subst(A, A.setbool(P, e, ONE), a, q)) for P in (g0, w0)]
                except (Inexact, TooBig):
                    continue
                bad = A.differ(g1, w1, mod, tol)
                if bad:
                    return c.ob(name, False, 'where %s is %s: %s' % (A.sa(a), A.sh(q), A.showbad(bad)), where)
    return c.ob(name, not bad, A.showbad(bad) if bad else '', where)


def mentions(A, P, a):
    return any(b == a or atommentions(A, b, a) for m in P for b, _ in m)


def atommentions(A, b, a):
    k = A.atoms[b]
    if k[0] == 'sym':
        return False
    for x in k[1:]:
        for i in x if isinstance(x, tuple) else (x,):
            if isinstance(i, int) and k[0] in ('sin', 'cos', 'sqrt', 'inv', 'atan', 'acos', 'asin', 'floor', 'trunc', 'round', 'poly', 'lt', 'eq', 'fun', 'atan2'):
                if mentions(A, A.polys[i], a):
                    return True
            elif k[0] in ('bool', 'int'):
                return True
    return False


def solve(A, P):
    """ways to make P zero by fixing one symbol: list of (symbol atom, polynomial)"""
    if len(P) == 1:
        (m, _), = P.items()
        return [(a, {}) for a, _ in m if A.atoms[a][0] == 'sym']
    best = []
    for m, k in P.items():
        if len(m) == 1 and m[0][1] == 1 and A.atoms[m[0][0]][0] == 'sym':
            rest = {n: x for n, x in P.items() if n != m}
            if not mentions(A, rest, m[0][0]):
                best.append((m[0][0], A.scale(rest, -ONE / k)))
    return best[:1]


def subst(A, P, a, q, memo=None):
    """P with the symbol a replaced by the polynomial q"""
    memo = {} if memo is None else memo
    out = {}
    for m, k in P.items():
        t = {(): k}
        for b, e in m:
            v = q if b == a else subatom(A, b, a, q, memo) if atommentions(A, b, a) else None
            if v is None:
                t = A.mul(t, {((b, e),): ONE})
            else:
                t = A.mul(t, A.power(v, e) if e > 0 else A.power(A.inv(v), -e))
        out = A.add(out, t)
    return out


def subatom(A, b, a, q, memo):
    if b in memo:
        return memo[b]
    k = A.atoms[b]
    kind = k[0]
    s = lambda i: subst(A, A.polys[i], a, q, memo)  # noqa
    if kind in ('sin', 'cos'):
        r = A.sincos(s(k[1]))[0 if kind == 'sin' else 1]
    elif kind == 'sqrt':
        r = A.sqrt(s(k[1]))
    elif kind == 'inv':
        r = A.inv(s(k[1]))
    elif kind == 'poly':
        r = s(k[1])
    elif kind in ('lt', 'eq'):
        r = A.signatoms(s(k[1]))[0 if kind == 'lt' else 1]
    elif kind == 'atan2':
        r = A.atan2(s(k[1]), s(k[2]))
    elif kind in ('atan', 'acos', 'asin'):
        r = A.fn1(kind, s(k[1]))
    elif kind == 'floor':
        r = A.floor(s(k[1]))
    elif kind == 'trunc':
        r = A.trunc(s(k[1]), (-INF, INF, True))
    else:
        raise Inexact('substitution in %s' % kind)
    memo[b] = r
    return r


def dropeq(A, P):
    if any(A.atoms[a][0] == 'eq' for m in P for a, _ in m):
        return {m: x for m, x in P.items() if not any(A.atoms[a][0] == 'eq' for a, _ in m)}
    return P


def indicator(A, p, v, name, st=None):
    """indicator polynomial: the enum value is the variant name"""
    st = st or A.root
    if v.__class__ is IteVal:
        return A.gate(v.c, lambda s: indicator(A, p, v.a, name, s), lambda s: indicator(A, p, v.b, name, s), st)
    return {(): ONE} if p.types[v.ty]['v'][v.v]['name'] == name else {}


def holds(c, name, A, poly, value, where=''):
    """obligation: an indicator polynomial is the constant 0 or 1"""
    poly = poly.p if isinstance(poly, X) else poly
    bad = A.differ(poly, {(): ONE} if value else {})
    return c.ob(name, not bad, 'the condition is %s' % A.sh(poly, 4) if bad else '', where)


def part(A, p, v, names, comp=None, st=None):
    """indicator that the enum value is (nested) variant names[0](names[1](..)), or, with comp, the polynomial
    of that component of the payload (0 elsewhere)"""
    st = st or A.root
    if v.__class__ is IteVal:
        return A.gate(v.c, lambda s: part(A, p, v.a, names, comp, s), lambda s: part(A, p, v.b, names, comp, s), st)
    if names:
        if p.types[v.ty]['v'][v.v]['name'] != names[0]:
            return {}
        if len(names) > 1:
            return part(A, p, v.f[0], names[1:], comp, st)
        v = v.f[0] if v.f else None
    if comp is None:
        return {(): ONE}
    for x in [y for y in comp.split('.') if y]:
        if v.__class__ is IteVal:
            return A.gate(v.c, lambda s: part(A, p, v.a, (), comp, s), lambda s: part(A, p, v.b, (), comp, s), st)
        v = get(p, v, x)
        comp = comp.split('.', 1)[1] if '.' in comp else ''
    v = collapse(v)
    return A.cond(v, st) if v.kind == 'b' else A.nf(v, st)


def constant(c, name, prog='tofas.lib'):
    """value of a constant of the crate"""
    p = c.prog(prog)
    for it in p.d['items']:
        if it['name'] == name and 'val' in it:
            return p.cv(it['ty'], it['val'])
    raise KeyError('no constant ' + name)


def sweep(A, roots, inter):
    """meets the oracle at intermediate quantities: inter is a list of (X polynomial, X replacement); a node of the
    graph equal to such a polynomial (or its opposite) is replaced by the fresh symbol the oracle uses from there on"""
    seen, met = set(), set()

    def go(n):
        if n.id in seen or not isinstance(n, N.Node):
            return
        seen.add(n.id)
        if n.op == 'fite':
            g = A.cond(n.args[0], A.root)
            if A.isconst(g):
                return go(n.args[1] if A.cval(g) else n.args[2])
        for a in n.args:
            if a.kind == 'f':
                go(a)
        if len(n.args) < 2 and n.op != 'fneg':
            return
        P = A.nf(n)
        for i, (w, sub) in enumerate(inter):
            w = w.p
            if len(w) != len(P) or set(w) != set(P):
                continue
            for sg in (ONE, -ONE):
                if not A.differ(P, A.scale(w, sg)):
                    A.bind[n] = A.root.memo[n] = A.scale(sub.p, sg)
                    met.add(i)
                    return
    for r in roots:
        go(r)
    return met


def spread(c, items, f, n=8):
    """f(item) -> list of failures (name, detail), over the items, in n processes; counts every item"""
    import pickle
    jobs = []
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                out, cnt = [], 0
                for x in items[k::n]:
                    try:
                        m, bad = f(x)
                        cnt += m
                        out += bad
                    except (Undecided, Inexact, TooBig) as e:
                        out.append(('%s' % (x,), 'not decided: %s' % e))
                    except Exception as e:
                        out.append(('%s' % (x,), 'anchor or shape not found: %s %s' % (type(e).__name__, e)))
                    if len(out) > 50:
                        break
                with os.fdopen(w, 'wb') as h:
                    pickle.dump((cnt, out, c.steps, sorted(c.fns)), h)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        KIDS.append(pid)
        jobs.append((pid, r))
    total, bad = 0, []
    for pid, r in jobs:
        with os.fdopen(r, 'rb') as h:
            data = h.read()
        os.waitpid(pid, 0)
        if not data:
            bad.append(('worker', 'a worker process stopped'))
            continue
        m, out, st, fns = pickle.loads(data)
        total += m
        bad += out
        c.bulk += m - len(out)
        c.steps += st
        c.fns |= set(fns)
    return total, bad
