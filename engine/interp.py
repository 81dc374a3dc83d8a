"""Abstract interpretation of the compiler's MIR over the value graph of nodes.py.

A function is analysed once for all inputs in a context: branches that the context does not decide are both followed up
to their immediate post-dominator and joined there into gated values; loops are followed as long as their condition is
decided (loops over tables and ranges), otherwise up to a bound, beyond which the analysis gives up ("undecided").
Calls are entered; the few library primitives that have no MIR worth reading (float functions, slice iterators, memory
moves, formatting) are given by the table of natives below.
"""
import json
import math
import os
import re
import struct
import sys
from nodes import *
import nodes as N

sys.setrecursionlimit(60000)


class Undecided(Exception):
    """the construct is outside what the analysis understands: no verdict, reported as a violation by the checks"""


class Agg:
    __slots__ = ('ty', 'v', 'f')

    def __init__(self, ty, v, f):
        self.ty = ty
        self.v = v
        self.f = f

    def __repr__(self):
        return '%s%r' % ('' if self.v in (None, 0) else '#%s' % self.v, list(self.f))


class IteVal:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b

    def __repr__(self):
        return 'ite(%r, %r, %r)' % (self.c, self.a, self.b)


class Ref:
    __slots__ = ('root', 'path', 'sl')

    def __init__(self, root, path=(), sl=None):
        self.root = root
        self.path = path
        self.sl = sl

    def same(self, o):
        return isinstance(o, Ref) and self.root == o.root and self.path == o.path and self.sl == o.sl

    def __repr__(self):
        return '&%r%r%s' % (self.root, list(self.path), '' if self.sl is None else list(self.sl))


class Fn:
    __slots__ = ('key', 'd')

    def __init__(self, key, d=None):
        self.key = key
        self.d = d

    def __repr__(self):
        return 'fn ' + str(self.key)


class Str:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = bytes(b)

    def __repr__(self):
        return 'str %r' % self.b


# releasing these only frees memory
FREED = ('std::vec::Vec<f64>', 'std::vec::Vec<std::ffi::OsString', 'pico_args::', 'std::string::String', 'alloc::raw_vec', 'std::alloc', 'std::io::Error', 'anyhow::')


class It:
    """slice iterator (elements are references root/path/index) or by-value array iterator"""
    __slots__ = ('ref', 'vals', 'i', 'j')

    def __init__(self, ref, vals, i, j):
        self.ref = ref
        self.vals = vals
        self.i = i
        self.j = j


class Nat:
    """opaque native value (formatter arguments and the like)"""
    __slots__ = ('k', 'x')

    def __init__(self, k, x):
        self.k = k
        self.x = x

    def __repr__(self):
        return '<%s %r>' % (self.k, self.x)


class _Uninit:
    def __repr__(self):
        return 'UNINIT'


UNINIT = _Uninit()
DIVERGED = object()


def canonical_names(path):
    """the dump, with what has moved to another module and is still given out under its old name called by that name"""
    with open(path) as f:
        text = f.read()
    here = os.path.dirname(os.path.abspath(path))
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'names.json')) as f:
        base = set(json.load(f))
    own = os.path.basename(path).split('.')[0]
    moved = {}
    for n in sorted(os.listdir(here)):
        if n.endswith('.lib.names'):
            with open(os.path.join(here, n)) as f:
                for p, q in json.load(f):
                    if p in base and q not in base:
                        moved.setdefault(q, p)
    for q, p in moved.items():
        text = re.sub(r'(?<![\w:])%s(?!\w)' % re.escape(q), p, text)
        crate, q = q.split('::', 1)
        if crate == own:
            text = re.sub(r'(?<![\w:])%s(?!\w)' % re.escape(q), p.split('::', 1)[1], text)
    # impls outside the module of their type
    text = re.sub(r'(?<![\w:])tofas(?:_extras)?::(?:\w+::)*<impl ([\w:]+(?:<[^<>]*>)?) for ([\w:]+(?:<[^<>]*>)?)>::', r'<\2 as \1>::', text)
    return re.sub(r'(?<![\w:])tofas(?:_extras)?::(?:\w+::)*<impl ((?:tofas|tofas_extras)::[\w:]+)>::', r'\1::', text)


class Prog:
    def __init__(self, path):
        d = json.loads(canonical_names(path))
        self.d = d
        self.crate = d['crate']
        self.types = {int(k): v for k, v in d['types'].items()}
        self.tnames = {int(k): v for k, v in d['tnames'].items()}
        self.fns = d['fns']
        self.consts = d['consts']
        self._cval = {}
        self.cmem = {}
        self.pd = {}
        self.vtab = {}
        self.vdrop = {}
        self.closures = {}
        for k, f in self.fns.items():
            self.closures.setdefault(f['def'], []).append(k)
        self.bydef = {}
        for k, f in self.fns.items():
            self.bydef.setdefault(f['def'], []).append(k)

    # -- types
    def rng(self, ty):
        t = self.types[ty]
        k = t['k']
        if k == 'int':
            b = t['bits']
            return (-(1 << b - 1), (1 << b - 1) - 1) if t['signed'] else (0, (1 << b) - 1)
        if k == 'char':
            return (0, 0x10ffff)
        if k == 'bool':
            return (0, 1)
        raise Undecided('integer type expected: ' + self.tnames[ty])

    def tyname(self, ty):
        return self.tnames.get(ty, str(ty))

    def item(self, key):
        for it in self.d['items']:
            if it['key'] == key:
                return it
        raise KeyError('no function ' + key)

    def find_ty(self, name):
        for k, v in self.tnames.items():
            if v == name:
                return k
        return None

    # -- constants
    def const(self, ix):
        if ix not in self._cval:
            c = self.consts[ix]
            self._cval[ix] = self.cv(c['ty'], c['v'])
        return self._cval[ix]

    def cref(self, v):
        r = ('k', len(self.cmem))
        self.cmem[r] = v
        return r

    def cv(self, ty, v):
        t = self.types[ty]
        k = t['k']
        if 'i' in v:
            return ic(int(v['i']))
        if 'f' in v:
            if v['w'] == 64:
                return fc(struct.unpack('<d', struct.pack('<Q', int(v['f'], 16)))[0])
            return fc(struct.unpack('<f', struct.pack('<I', int(v['f'], 16)))[0])
        if 'b' in v:
            return bc(v['b'])
        if 'c' in v:
            return ic(v['c'] if isinstance(v['c'], int) else ord(v['c']))
        if 't' in v:
            fts = t.get('f', [])
            return Agg(ty, None, tuple(self.cv(ft, x) for ft, x in zip(fts, v['t'])))
        if 'a' in v:
            return Agg(ty, None, tuple(self.cv(t['e'], x) for x in v['a']))
        if 'fs' in v:
            vi = v.get('v') or 0
            fts = [f[1] for f in t['v'][vi]['f']]
            return Agg(ty, vi, tuple(self.cv(ft, x) for ft, x in zip(fts, v['fs'])))
        if 'ref' in v:
            inner = v['ref']
            e = t.get('e')
            if k == 'adt' or e is None:
                raise Undecided('constant pointer of type ' + self.tyname(ty))
            if self.types[e]['k'] == 'slice' and 'a' in inner:
                et = self.types[e]['e']
                val = Agg(e, None, tuple(self.cv(et, x) for x in inner['a']))
                return Ref(self.cref(val), (), (0, len(val.f)))
            return Ref(self.cref(self.cv(e, inner)))
        if 'str' in v:
            return Str(v['str'])
        if 'fn' in v:
            return Fn(v['fn'].get('key'), v['fn'])
        if 'fnptr' in v:
            return Fn(v['fnptr'])
        if 'closure' in v:
            return Agg(ty, None, ())
        if k == 'fndef':
            return Fn(None, {'def': t['name']})
        return Nat('opaque', json.dumps(v)[:100])

    def closure_key(self, ty):
        t = self.types[ty]
        for k in self.bydef.get(t['name'], ()):
            if self.fns[k]['args'] == t['args']:
                return k
        return None

    # -- post-dominators of a body (normal edges only)
    def ipdom(self, key):
        r = self.pd.get(key)
        if r is None:
            r = self.pd[key] = _ipdom(self.fns[key]['body']['blocks'])
        return r

    def dropkey(self, ty):
        """the drop glue of a type, where some dumped body drops a value of that type"""
        if self._drops is None:
            self._drops = {}
            for f in self.fns.values():
                for b in f.get('body', {}).get('blocks', ()):
                    t = b['t']
                    if t[0] == 'drop' and not t[4]:
                        self._drops[t[3]] = t[5]
        return self._drops.get(ty)

    _drops = None


def _succ(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[5]]
    return []


def _ipdom(blocks):
    n = len(blocks)
    EXIT = n
    succ = [list(dict.fromkeys(_succ(b['t']))) for b in blocks]
    for i, b in enumerate(blocks):
        if b['t'][0] == 'return':
            succ[i] = [EXIT]
    succ.append([])
    pred = [[] for _ in range(n + 1)]
    for i, s in enumerate(succ):
        for j in s:
            pred[j].append(i)
    # blocks from which the exit is reachable
    live = set([EXIT])
    st = [EXIT]
    while st:
        x = st.pop()
        for p in pred[x]:
            if p not in live:
                live.add(p)
                st.append(p)
    order = []
    seen = set([EXIT])
    stack = [(EXIT, iter([p for p in pred[EXIT] if p in live]))]
    while stack:
        x, it = stack[-1]
        for p in it:
            if p not in seen:
                seen.add(p)
                stack.append((p, iter([q for q in pred[p] if q in live])))
                break
        else:
            order.append(x)
            stack.pop()
    order.reverse()                     # reverse postorder on the reversed graph
    num = {x: i for i, x in enumerate(order)}
    idom = {EXIT: EXIT}
    ch = True
    while ch:
        ch = False
        for x in order:
            if x == EXIT:
                continue
            new = None
            for s in succ[x]:
                if s in idom and s in num:
                    if new is None:
                        new = s
                    else:
                        a, b = new, s
                        while a != b:
                            while num[a] > num[b]:
                                a = idom[a]
                            while num[b] > num[a]:
                                b = idom[b]
                        new = a
            if new is not None and idom.get(x) != new:
                idom[x] = new
                ch = True
    return idom


class Frame:
    __slots__ = ('id', 'key', 'body', 'blocks', 'locals', 'idom', 'exit', 'line', 'local', 'tys')


class Alarm:
    __slots__ = ('kind', 'msg', 'where', 'fn', 'sure', 'cond')

    def __init__(self, kind, msg, where, fn, sure):
        self.kind = kind
        self.msg = msg
        self.where = where
        self.fn = fn
        self.sure = sure

    def __repr__(self):
        return '%s: %s (%s) at %s in %s' % ('reached' if self.sure else 'possible', self.kind, self.msg, self.where, self.fn)


FNCALL = ('std::ops::FnMut::call_mut', 'std::ops::Fn::call', 'std::ops::FnOnce::call_once')


class Interp:
    def __init__(self, prog, opaque=None, fuel=4000000, f2i_hook=None, subst=None, overflow_checks=True):
        self.p = prog
        self.opaque = opaque or (lambda key, f: None)
        self.mem = {}
        self.ctx = Ctx()
        self.fid = 0
        self.frames = []
        self.alarms = []
        self._alarmset = set()
        self.fuel = fuel
        self.steps = 0
        self.f2i_hook = f2i_hook
        self.subst = subst
        self.entered = {}
        self.calls = 0
        self.depth = 0
        self.fmtn = 0
        self.overflow_checks = overflow_checks
        self.opaque_calls = []

    # -- memory
    def alloc(self, v):
        self.fid += 1
        r = ('h', self.fid)
        self.mem[r] = v
        return r

    def lookup(self, root):
        if root[0] == 'k':
            return self.p.cmem[root]
        if root[0] == 's':
            return root[1]
        return self.mem.get(root, UNINIT)

    def resolve(self, v):
        while v.__class__ is IteVal:
            d = self.ctx.decide(v.c)
            if d is None:
                return v
            v = v.a if d else v.b
        return v

    def merge(self, c, a, b):
        if a is b:
            return a
        if c.op == 'bc':
            return a if c.p else b
        if a is UNINIT:
            return b
        if b is UNINIT:
            return a
        ca, cb = a.__class__, b.__class__
        if ca is Node and cb is Node:
            if a.kind != b.kind:
                return IteVal(c, a, b)
            return ite(c, a, b)
        if ca is Agg and cb is Agg and a.ty == b.ty and a.v == b.v and len(a.f) == len(b.f):
            return Agg(a.ty, a.v, tuple(self.merge(c, x, y) for x, y in zip(a.f, b.f)))
        if ca is Ref and cb is Ref and a.same(b):
            return a
        if ca is Str and cb is Str and a.b == b.b:
            return a
        if ca is Fn and cb is Fn and a.key == b.key and a.key is not None:
            return a
        if ca is It and cb is It and a.i == b.i and a.j == b.j:
            if a.vals is None and b.vals is None and a.ref.same(b.ref):
                return a
            if a.vals is not None and b.vals is not None and len(a.vals) == len(b.vals):
                return It(None, tuple(self.merge(c, x, y) for x, y in zip(a.vals, b.vals)), a.i, a.j)
        if ca is Nat and cb is Nat and a.k == b.k and a.k == 'log':
            if a.x == b.x:
                return a
        if c.op == 'not':
            return IteVal(c.args[0], b, a)
        return IteVal(c, a, b)

    def map1(self, v, f):
        """apply f to the non-gated alternatives of v"""
        v = self.resolve(v)
        if v.__class__ is IteVal:
            return self.merge(v.c, self.map1(v.a, f), self.map1(v.b, f))
        if v is UNINIT:
            return UNINIT
        return f(v)

    def project(self, v, el):
        if v.__class__ is IteVal:
            v = self.resolve(v)
            if v.__class__ is IteVal:
                if el.__class__ is tuple and el[0] == 'v':
                    fa = self.project(v.a, el)
                    fb = self.project(v.b, el)
                    return self.merge(v.c, fa, fb)
                return self.merge(v.c, self.project(v.a, el), self.project(v.b, el))
        if v is UNINIT:
            return UNINIT
        c = el.__class__
        if v.__class__ is not Agg:
            if c is tuple and el[0] in ('v', 'slice'):
                return v
            if v.__class__ is It and v.vals is None and el in (0, 1):
                return Ref(v.ref.root, v.ref.path + ((v.i, v.j)[el],))
            if v.__class__ is Nat or v.__class__ is It:
                raise Undecided('field of a native value %s' % (v.k if v.__class__ is Nat else 'iterator'))
            if el == 0 and v.__class__ in (Ref, Node, Fn):
                return v             # transparent wrapper reinterpretation
            raise Undecided('projection of %r' % (v,))
        if c is int:
            if el >= len(v.f):
                return UNINIT
            return v.f[el]
        if c is tuple:
            if el[0] == 'v':
                return v if v.v == el[1] else UNINIT
            if el[0] == 'slice':
                return Agg(v.ty, None, v.f[el[1]:el[1] + el[2]])
        # symbolic index
        if el.op == 'iite' and N._leafconst(el):
            return self.by_leaf(el, lambda k: v.f[k] if 0 <= k < len(v.f) else UNINIT, {})
        lo, hi = self.ctx.iv(el)
        lo, hi = max(lo, 0), min(hi, len(v.f) - 1)
        if lo > hi:
            return UNINIT
        r = v.f[hi]
        for k in range(hi - 1, lo - 1, -1):
            r = self.merge(ieq(el, ic(k)), v.f[k], r)
        return r

    def by_leaf(self, n, f, memo):
        if n.op == 'ic':
            return f(n.p)
        d = self.ctx.decide(n.args[0])
        if d is not None:
            return self.by_leaf(n.args[1] if d else n.args[2], f, memo)
        r = memo.get(n)
        if r is None:
            r = memo[n] = self.merge(n.args[0], self.by_leaf(n.args[1], f, memo), self.by_leaf(n.args[2], f, memo))
        return r

    def read(self, root, path):
        v = self.lookup(root)
        off = 0
        for el in path:
            if el.__class__ is tuple and el[0] == 'slice':
                off += el[1]
                continue
            if off:
                el = el + off if el.__class__ is int else iadd(el, ic(off))
                off = 0
            v = self.project(v, el)
        if path and path[-1].__class__ is tuple and path[-1][0] == 'slice':
            v = self.resolve(v)
            if v.__class__ is Agg:
                return Agg(v.ty, None, v.f[off:off + path[-1][2]])
        return v

    def upd(self, v, path, new):
        if not path:
            return new
        el = path[0]
        if el.__class__ is tuple:
            if el[0] == 'slice':
                if len(path) == 1:
                    if new.__class__ is not Agg:
                        raise Undecided('write of a whole slice')
                    return Agg(v.ty, v.v, v.f[:el[1]] + new.f + v.f[el[1] + el[2]:])
                nx = path[1]
                if nx.__class__ is tuple and nx[0] == 'slice':
                    return self.upd(v, (('slice', el[1] + nx[1], nx[2]),) + path[2:], new)
                nx = nx + el[1] if nx.__class__ is int else iadd(nx, ic(el[1]))
                return self.upd(v, (nx,) + path[2:], new)
        v = self.resolve(v)
        if v.__class__ is IteVal:
            if el.__class__ is tuple and el[0] == 'v':
                a = self.resolve(v.a)
                a2 = self.upd(v.a, path, new) if not (a.__class__ is Agg and a.v != el[1]) else v.a
                b = self.resolve(v.b)
                b2 = self.upd(v.b, path, new) if not (b.__class__ is Agg and b.v != el[1]) else v.b
                return self.merge(v.c, a2, b2)
            return self.merge(v.c, self.upd(v.a, path, new), self.upd(v.b, path, new))
        if el.__class__ is tuple and el[0] == 'v':
            return self.upd(v, path[1:], new)
        if v is UNINIT:
            if el.__class__ is int:
                f = [UNINIT] * (el + 1)
                f[el] = self.upd(UNINIT, path[1:], new)
                return Agg(None, None, tuple(f))
            raise Undecided('write into uninitialised storage')
        if v.__class__ is not Agg:
            raise Undecided('write into %r' % (v,))
        if el.__class__ is int:
            f = v.f
            if el >= len(f):
                f = f + (UNINIT,) * (el + 1 - len(f))
            return Agg(v.ty, v.v, f[:el] + (self.upd(f[el], path[1:], new),) + f[el + 1:])
        lo, hi = self.ctx.iv(el)
        lo, hi = max(lo, 0), min(hi, len(v.f) - 1)
        f = list(v.f)
        for k in range(lo, hi + 1):
            f[k] = self.merge(ieq(el, ic(k)), self.upd(f[k], path[1:], new), f[k])
        return Agg(v.ty, v.v, tuple(f))

    def write(self, root, path, new):
        if root[0] in ('k', 's'):
            raise Undecided('write to constant storage')
        if not path:
            self.mem[root] = new
        else:
            self.mem[root] = self.upd(self.mem.get(root, UNINIT), path, new)

    def wgate(self, pl, new):
        """write through a (possibly gated) place"""
        if pl[0] == 'ite':
            _, c, a, b = pl
            old = self.rplace(b)
            oa = self.rplace(a)
            self.wgate(a, self.merge(c, new, oa))
            # b may alias a: re-read
            ob = self.rplace(b)
            self.wgate(b, self.merge(c, ob, new))
        else:
            self.write(pl[0], pl[1], new)

    def rplace(self, pl):
        if pl[0] == 'ite':
            return self.merge(pl[1], self.rplace(pl[2]), self.rplace(pl[3]))
        return self.read(pl[0], pl[1])

    # -- places
    def refplace(self, v):
        """place denoted by a reference value"""
        v = self.resolve(v)
        if v.__class__ is IteVal:
            return ('ite', v.c, self.refplace(v.a), self.refplace(v.b))
        if v.__class__ is Ref:
            if v.sl is not None:
                return (v.root, v.path + (('slice', v.sl[0], v.sl[1]),))
            return (v.root, v.path)
        if v.__class__ is Agg and len(v.f) >= 1:
            # Box / NonNull / Unique wrappers
            return self.refplace(v.f[0])
        if v.__class__ is Str or v.__class__.__name__ == 'Nat' and v.k == 'string':
            return (('s', v), ())
        raise Undecided('dereference of %r' % (v,))

    def place(self, fr, pl):
        cur = ((fr.id, pl[0]), ())
        for el in pl[1:]:
            cur = self.step(fr, cur, el)
        return cur

    def step(self, fr, cur, el):
        if cur[0] == 'ite':
            return ('ite', cur[1], self.step(fr, cur[2], el), self.step(fr, cur[3], el))
        root, path = cur
        k = el[0]
        if k == 'f':
            return (root, path + (el[1],))
        if k == 'd':
            return self.refplace(self.read(root, path))
        if k == 'i':
            i = self.mem[(fr.id, el[1])]
            if i.__class__ is not Node:
                raise Undecided('index')
            if i.op == 'ic':
                i = i.p
            else:
                lo, hi = self.ctx.iv(i)
                if lo == hi:
                    i = lo
            if path and path[-1].__class__ is tuple and path[-1][0] == 'slice':
                s = path[-1][1]
                i = i + s if i.__class__ is int else iadd(i, ic(s))
                return (root, path[:-1] + (i,))
            return (root, path + (i,))
        if k == 'ci':
            off, minlen, fromend = el[1], el[2], el[3]
            if self.read(root, path) is UNINIT and not fromend:
                return (root, path + (off,))     # the value of a variant that is not there
            n = self.plen(root, path)
            i = n - off if fromend else off
            if path and path[-1].__class__ is tuple and path[-1][0] == 'slice':
                return (root, path[:-1] + (i + path[-1][1],))
            return (root, path + (i,))
        if k == 'ss':
            n = self.plen(root, path)
            a, b = el[1], (n - el[2] if el[3] else el[2])
            if path and path[-1].__class__ is tuple and path[-1][0] == 'slice':
                return (root, path[:-1] + (('slice', path[-1][1] + a, b - a),))
            return (root, path + (('slice', a, b - a),))
        if k == 'v':
            return (root, path + (('v', el[1]),))
        if k == 'oc':
            return cur
        raise Undecided('place ' + k)

    def plen(self, root, path):
        if path and path[-1].__class__ is tuple and path[-1][0] == 'slice':
            return path[-1][2]
        v = self.resolve(self.read(root, path))
        if v.__class__ is Agg:
            return len(v.f)
        raise Undecided('length')

    def place_ty(self, fr, pl):
        ty = fr.locals[pl[0]]
        T = self.p.types
        for el in pl[1:]:
            k = el[0]
            t = T[ty]
            if k == 'f':
                ty = el[2]
            elif k == 'd':
                ty = t.get('e')
                if ty is None:
                    raise Undecided('type of a dereference')
            elif k in ('i', 'ci'):
                ty = t['e']
            elif k == 'oc':
                ty = el[1]
        return ty

    def op_ty(self, fr, op):
        if op[0] in ('c', 'm'):
            return self.place_ty(fr, op[1])
        if op[0] == 'k':
            return self.p.consts[op[1]]['ty']
        return None

    def operand(self, fr, op):
        k = op[0]
        if k == 'k':
            return self.p.const(op[1])
        if k == 'rc':
            w = op[1]
            if 'Overflow' in w:
                return bc(self.overflow_checks)
            return bc(False)
        pl = op[1]
        if len(pl) == 1:
            v = self.mem.get((fr.id, pl[0]), UNINIT)
        else:
            v = self.rplace(self.place(fr, pl))
        if v.__class__ is IteVal:
            v = self.resolve(v)
        elif v.__class__ is Node and v.op in ('fite', 'iite', 'bite'):
            d = self.ctx.decide(v.args[0])
            while d is not None:
                v = v.args[1] if d else v.args[2]
                if v.op not in ('fite', 'iite', 'bite'):
                    break
                d = self.ctx.decide(v.args[0])
        return v

    # -- alarms
    def where(self):
        for fr in reversed(self.frames):
            if fr.local:
                return '%s:%s' % tuple(fr.line)
        return '%s:%s' % tuple(self.frames[-1].line) if self.frames else '?'

    def wherefn(self):
        for fr in reversed(self.frames):
            if fr.local:
                return fr.key
        return self.frames[-1].key if self.frames else '?'

    def alarm(self, kind, msg, sure):
        w = self.where()
        k = (kind, msg, w, sure)
        if k in self._alarmset:
            return
        self._alarmset.add(k)
        self.alarms.append(Alarm(kind, msg, w, self.wherefn(), sure))

    # -- branching
    def with_cond(self, c, fa, fb):
        """run fa where c holds, fb where it does not; returns the joined value, or DIVERGED"""
        d = self.ctx.decide(c)
        if d is not None:
            return fa() if d else fb()
        mem0, ctx0 = self.mem, self.ctx
        ca, cb = ctx0.assume(c, True), ctx0.assume(c, False)
        if ca is None and cb is None:
            return DIVERGED
        if cb is None:
            self.ctx = ca
            return fa()
        if ca is None:
            self.ctx = cb
            return fb()
        self.mem, self.ctx = dict(mem0), ca
        ra = fa()
        ma, ka = self.mem, self.ctx
        self.mem, self.ctx = mem0, cb
        rb = fb()
        mb, kb = self.mem, self.ctx
        if ra is DIVERGED and rb is DIVERGED:
            return DIVERGED
        if ra is DIVERGED:
            return rb
        if rb is DIVERGED:
            self.mem, self.ctx = ma, ka
            return ra
        self.mem = self.merge_mem(c, ma, mb)
        self.ctx = ctx0
        if ra is None:
            return None
        return self.merge(c, ra, rb)

    def merge_mem(self, c, ma, mb):
        out = {}
        for k, a in ma.items():
            b = mb.get(k, UNINIT)
            out[k] = a if a is b else self.merge(c, a, b)
        for k, b in mb.items():
            if k not in ma:
                out[k] = b
        return out

    # -- functions
    def run(self, key, args):
        r = self.call_key(key, args)
        return r

    def call_key(self, key, args, dest_ty=None):
        f = self.p.fns.get(key)
        if f is None or 'body' not in f:
            raise Undecided('no body for ' + str(key))
        body = f['body']
        if self.depth > 180:
            raise Undecided('call depth (recursion) in ' + key)
        fr = Frame()
        self.fid += 1
        fr.id = self.fid
        fr.key = key
        fr.body = body
        fr.blocks = body['blocks']
        fr.locals = body['locals']
        fr.idom = self.p.ipdom(key)
        fr.exit = len(fr.blocks)
        fr.local = f['krate'].startswith('tofas')
        fr.line = body['span']
        n = body['argc']
        sp = body.get('spread')
        if sp is not None and len(args) != n:
            args = list(args[:sp - 1]) + [Agg(fr.locals[sp], None, tuple(args[sp - 1:]))]
        elif len(args) != n:
            # closures called through the Fn traits: the argument tuple is spread
            if args and args[-1].__class__ is Agg and len(args) - 1 + len(args[-1].f) == n:
                args = list(args[:-1]) + list(args[-1].f)
            else:
                raise Undecided('argument count of ' + key)
        for i, a in enumerate(args):
            self.mem[(fr.id, i + 1)] = a
        if self.p.types[fr.locals[0]]['k'] == 'tuple' and not self.p.types[fr.locals[0]]['f']:
            self.mem[(fr.id, 0)] = Agg(fr.locals[0], None, ())
        self.calls += 1
        self.entered[key] = self.entered.get(key, 0) + 1
        self.frames.append(fr)
        self.depth += 1
        try:
            ok = self.exec_until(fr, 0, fr.exit)
        finally:
            self.frames.pop()
            self.depth -= 1
        if not ok:
            return DIVERGED
        r = self.mem.get((fr.id, 0), UNINIT)
        fid = fr.id
        for i in range(len(fr.locals)):
            self.mem.pop((fid, i), None)
        if r.__class__ is IteVal:
            r = self.resolve(r)
        return r

    def exec_until(self, fr, bb, stop):
        """run from bb until stop; True if stop is reached"""
        blocks = fr.blocks
        while bb != stop:
            blk = blocks[bb]
            self.steps += 1
            if self.steps > self.fuel:
                raise Undecided('no bound on the number of iterations found in %s (%s)' % (fr.key, fr.line))
            for s in blk['s']:
                op = s[0]
                if op == '=':
                    fr.line = (fr.body['span'][0], s[1])
                    self.assign(fr, s[2], s[3])
                elif op == 'setd':
                    pl = self.place(fr, s[2])
                    old = self.rplace(pl)
                    ty = self.place_ty(fr, s[2])
                    nf = len(self.p.types[ty]['v'][s[3]]['f'])
                    f = old.f if old.__class__ is Agg else ()
                    self.wgate(pl, Agg(ty, s[3], tuple(f[:nf]) + (UNINIT,) * (nf - len(f[:nf]))))
                elif op == 'assume':
                    pass
                elif op == 'copy':
                    self.copy(*(self.resolve(self.operand(fr, x)) for x in s[2:5]))
                else:
                    raise Undecided('statement %s at %s' % (s, fr.line))
            t = blk['t']
            k = t[0]
            if k == 'goto':
                bb = t[1]
                continue
            if k == 'switch':
                v = self.operand(fr, t[1])
                if v.__class__ is IteVal:
                    raise Undecided('switch on a gated non-scalar')
                if v is UNINIT or v.__class__ is not Node:
                    raise Undecided('switch on %r at %s' % (v, fr.line))
                nb = self.switch(fr, bb, v, t)
                if nb is None:
                    return False
                bb = nb
                continue
            if k == 'call':
                fr.line = blk['sp']
                ok = self.do_call(fr, t)
                if not ok:
                    return False
                bb = t[4]
                continue
            if k == 'assert':
                fr.line = blk['sp']
                v = self.operand(fr, t[1])
                want = t[2]
                if v.__class__ is not Node:
                    raise Undecided('assert on %r' % (v,))
                d = self.ctx.decide(v)
                if d is None:
                    self.alarm('panic', t[3], False)
                    c2 = self.ctx.assume(v, want)
                    if c2 is None:
                        return False
                    self.ctx = c2
                elif d != want:
                    self.alarm('panic', t[3], True)
                    return False
                bb = t[5]
                continue
            if k == 'return':
                bb = fr.exit
                continue
            if k == 'drop':
                if not t[4]:
                    self.drop(fr, t)
                bb = t[2]
                continue
            if k == 'unreachable':
                return False
            if k in ('resume', 'abort'):
                self.alarm('panic', k, True)
                return False
            raise Undecided('terminator %s at %s' % (k, fr.line))
        return True

    def drop_value(self, ref):
        """end of life of a value that a native consumed"""
        v = self.resolve(self.read(ref.root, ref.path))
        if v.__class__ is not Agg:
            return
        key = self.p.dropkey(v.ty)
        if key is not None and 'body' in self.p.fns.get(key, {}):
            self.call_key(key, [ref])

    def drop_dyn(self, v, ref):
        if v.__class__ is IteVal:
            return self.with_cond(v.c, lambda: self.drop_dyn(v.a, ref), lambda: self.drop_dyn(v.b, ref))
        if v.__class__ is not Agg:
            return
        key = self.p.vdrop[v.ty] if v.ty in self.p.vdrop else self.p.dropkey(v.ty)
        if key is not None:
            if 'body' not in self.p.fns.get(key, {}):
                raise Undecided('drop of a trait object: %s' % key)
            self.call_key(key, [ref])

    def drop(self, fr, t):
        ty, key = t[3], t[5]
        n = str(self.p.tyname(ty))
        if self.p.types[ty]['k'] == 'dyn':
            # the glue of the value's own type
            self.drop_dyn(self.resolve(self.read(*self.place(fr, t[1]))), self.mkref(self.place(fr, t[1])))
            return
        f = self.p.fns.get(key)
        if f is not None and 'body' in f:
            if any(n.startswith(x) for x in FREED):
                return
            self.call_key(key, [self.mkref(self.place(fr, t[1]))])
            return
        tt = self.p.types[ty]
        if 'drop_in_place' in n or tt['k'] in ('param', 'dyn') or tt['k'] == 'adt' and tt.get('local'):
            raise Undecided('drop of ' + n)

    def switch(self, fr, bb, v, t):
        cases, other = t[2], t[3]
        if v.kind == 'i' and any(int(x) > 127 for x, _ in cases):
            ty = self.op_ty(fr, t[1])
            if self.p.types[ty]['k'] == 'int':
                lo, hi = self.p.rng(ty)
                cases = [(int(x) - (hi - lo + 1) if lo < 0 and int(x) > hi else x, b) for x, b in cases]
        if v.op == 'ic':
            for x, b in cases:
                if int(x) == v.p:
                    return b
            return other
        if v.op == 'bc':
            for x, b in cases:
                if int(x) == int(v.p):
                    return b
            return other
        items = []
        for x, b in cases:
            if v.kind == 'b':
                c = v if int(x) else bnot(v)
            else:
                c = ieq(v, ic(int(x)))
            items.append((c, b))
        J = fr.idom.get(bb)
        # decided?
        und = []
        ctx = self.ctx
        if v.kind == 'b' and len(items) == 1:
            d = ctx.decide(items[0][0])
            if d is True:
                return items[0][1]
            if d is False:
                return other
            und = items
        else:
            for c, b in items:
                d = ctx.decide(c)
                if d is True:
                    und.append((None, b))
                    break
                if d is False:
                    continue
                und.append((c, b))
            if und and und[0][0] is None:
                return und[0][1]
            if not und:
                return other
        tail = other
        if und[-1][0] is None:
            tail = und.pop()[1]
        if J is None:
            J = -1          # no way out on any side: run them for their alarms

        def go(i):
            if i == len(und):
                if tail is None:
                    return DIVERGED
                return None if self.exec_until(fr, tail, J) else DIVERGED
            c, b = und[i]
            return self.with_cond(c, lambda: None if self.exec_until(fr, b, J) else DIVERGED, lambda: go(i + 1))
        self.depth += 1
        if self.depth > 1500:
            raise Undecided('nesting of undecided branches (unbounded loop?) in %s at %s' % (fr.key, fr.line))
        try:
            r = go(0)
        finally:
            self.depth -= 1
        if r is DIVERGED:
            return None
        return J

    # -- rvalues
    def assign(self, fr, pl, rv):
        v = self.rvalue(fr, rv, pl)
        if len(pl) == 1:
            self.mem[(fr.id, pl[0])] = v
        else:
            self.wgate(self.place(fr, pl), v)

    def rvalue(self, fr, rv, pl):
        k = rv[0]
        if k == 'use':
            return self.operand(fr, rv[1])
        if k == 'bin' and rv[1] == 'Cmp':
            return self.cmp3(self.operand(fr, rv[2]), self.operand(fr, rv[3]), self.place_ty(fr, pl))
        if k == 'bin':
            a, b = self.operand(fr, rv[2]), self.operand(fr, rv[3])
            return self.binop(fr, rv[1], a, b, lambda: self.op_ty(fr, rv[2]))
        if k == 'cbin':
            a, b = self.operand(fr, rv[2]), self.operand(fr, rv[3])
            tt = self.place_ty(fr, pl)
            ty = self.p.types[tt]['f'][0]
            return Agg(tt, None, self.checked(rv[1], a, b, ty))
        if k == 'un':
            a = self.operand(fr, rv[2])
            if rv[1] == 'Neg':
                if a.kind == 'f':
                    return f1('fneg', a)
                ty = self.op_ty(fr, rv[2])
                return self.wrap(ineg(a), ty)
            if rv[1] == 'Not':
                if a.kind == 'b':
                    return bnot(a)
                ty = self.op_ty(fr, rv[2])
                lo, hi = self.p.rng(ty)
                return isub(ic(hi if lo == 0 else -1), a)
            if rv[1] == 'PtrMetadata':
                return self.map1(a, self.meta)
            raise Undecided('unary ' + rv[1])
        if k == 'cast':
            return self.cast(fr, rv)
        if k in ('ref', 'addr'):
            p = self.place(fr, rv[2])
            return self.mkref(p)
        if k == 'reborrow':
            p = self.place(fr, rv[-1])
            return self.mkref(p)
        if k == 'agg':
            w = rv[1]
            ops = tuple(self.operand(fr, o) for o in rv[2])
            if w == 'adt':
                t = self.p.types[rv[3]]
                if len(rv) > 5 and rv[5] is not None:
                    f = [UNINIT] * (rv[5] + 1)
                    f[rv[5]] = ops[0]
                    return Agg(rv[3], 0, tuple(f))
                return Agg(rv[3], rv[4] if t['kind'] == 'Enum' else 0, ops)
            if w == 'closure':
                return Agg(rv[3], None, ops)
            if w == 'rawptr':
                if ops[0].__class__ is Ref and len(ops) > 1 and ops[1].__class__ is Node and ops[1].op == 'ic':
                    r = ops[0]
                    if r.sl is None and r.path and r.path[-1].__class__ is int and self.isarray(r.root, r.path[:-1]):
                        return Ref(r.root, r.path[:-1], (r.path[-1], ops[1].p))
                    st = r.sl[0] if r.sl else 0
                    return Ref(r.root, r.path, (st, ops[1].p))
                if len(ops) > 1 and ops[1].__class__ is Agg and not ops[1].f:
                    return ops[0]
                raise Undecided('raw pointer from parts')
            return Agg(self.place_ty(fr, pl), None, ops)
        if k == 'disc':
            v = self.rplace(self.place(fr, rv[1]))
            return self.signed(self.disc(v), self.place_ty(fr, pl))
        if k == 'len':
            v = self.resolve(self.rplace(self.place(fr, rv[1])))
            return ic(len(v.f))
        if k == 'rep':
            v = self.operand(fr, rv[1])
            ty = self.place_ty(fr, pl)
            return Agg(ty, None, (v,) * self.p.types[ty]['n'])
        raise Undecided('rvalue ' + k)

    def mkref(self, p):
        if p[0] == 'ite':
            return self.merge(p[1], self.mkref(p[2]), self.mkref(p[3]))
        root, path = p
        if root[0] == 's' and not path:
            return root[1]
        if path and path[-1].__class__ is tuple and path[-1][0] == 'slice':
            return Ref(root, path[:-1], (path[-1][1], path[-1][2]))
        if root[0] not in ('k', 'h') and not path:
            v = self.mem.get(root)
            if v.__class__ is Str:
                return Ref(root, path)
        return Ref(root, path)

    def meta(self, r):
        if r.__class__ is Ref:
            if r.sl is None:
                return Agg(None, None, ())
            return ic(r.sl[1])
        if r.__class__ is Str:
            return ic(len(r.b))
        raise Undecided('metadata of %r' % (r,))

    def signed(self, n, ty):
        """a discriminant written as its bit pattern, as a number of the type"""
        if n.__class__ is not Node or self.p.types[ty]['k'] != 'int':
            return n
        lo, hi = self.p.rng(ty)
        if n.op == 'ic':
            return ic(n.p - (hi - lo + 1)) if lo < 0 and n.p > hi else n
        if n.op == 'iite':
            return iite(n.args[0], self.signed(n.args[1], ty), self.signed(n.args[2], ty))
        return n

    def disc(self, v):
        v = self.resolve(v)
        if v.__class__ is IteVal:
            return iite(v.c, self.disc(v.a), self.disc(v.b))
        if v.__class__ is Agg:
            t = self.p.types.get(v.ty)
            if t is None or t['k'] != 'adt':
                return ic(0)
            d = t['v'][v.v or 0].get('d')
            return ic(int(d) if d is not None else (v.v or 0))
        if v is UNINIT:
            return UNINIT
        raise Undecided('discriminant of %r' % (v,))

    def wrap(self, n, ty):
        lo, hi = self.p.rng(ty)
        l, h = self.ctx.iv(n)
        if l >= lo and h <= hi:
            return n
        m = hi - lo + 1
        if l == h:
            return ic((l - lo) % m + lo)
        w = mk('iwrap', (n,), (lo, hi))
        return w

    def checked(self, op, a, b, ty):
        lo, hi = self.p.rng(ty)
        if op == 'Add':
            r = iadd(a, b)
        elif op == 'Sub':
            r = isub(a, b)
        elif op == 'Mul':
            r = imul(a, b)
        elif op in ('Shl', 'Shr'):
            bits = self.p.types[ty]['bits']
            bad = bor(ilt(b, ic(0)), bnot(ilt(b, ic(bits))))
            return (self.shift(op, a, b, ty), bad)
        else:
            raise Undecided('checked ' + op)
        l, h = self.ctx.iv(r)
        if l >= lo and h <= hi:
            return (r, FALSE)
        if l > hi or h < lo:
            return (self.wrap(r, ty), TRUE)
        if l >= lo:
            c = ilt(ic(hi), r)
        elif h <= hi:
            c = ilt(r, ic(lo))
        else:
            c = bor(ilt(r, ic(lo)), ilt(ic(hi), r))
        return (r, c)          # the result is only used where the flag is false (assert)

    def cmp3(self, a, b, ty):
        v = [Agg(ty, i, ()) for i in range(3)]
        return self.merge(ilt(a, b), v[0], self.merge(ieq(a, b), v[1], v[2]))

    def shift(self, op, a, b, ty):
        lo, hi = self.p.rng(ty)
        bl, bh = self.ctx.iv(b)
        if bl == bh and 0 <= bl < 128:
            if op.startswith('Shl'):
                return self.wrap(iscale(a, 1 << bl), ty)
            return ifloordiv(a, 1 << bl, self.ctx)
        return mk('ibit', (a, b), (op, lo, hi))

    def binop(self, fr, op, a, b, tyf):
        if a.__class__ is not Node or b.__class__ is not Node:
            if a is UNINIT or b is UNINIT:
                return UNINIT      # dead code kept for an assumption; anything that uses it is not decided
            return self.binop_other(op, a, b)
        k = a.kind
        if k == 'f':
            if op == 'Add':
                return f2('fadd', a, b)
            if op == 'Sub':
                return f2('fsub', a, b)
            if op == 'Mul':
                return f2('fmul', a, b)
            if op == 'Div':
                return f2('fdiv', a, b)
            if op == 'Rem':
                return f2('frem', a, b)
            if op == 'Lt':
                return flt(a, b)
            if op == 'Le':
                return fle(a, b)
            if op == 'Gt':
                return flt(b, a)
            if op == 'Ge':
                return fle(b, a)
            if op == 'Eq':
                return feq(a, b)
            if op == 'Ne':
                return bnot(feq(a, b))
            raise Undecided('float ' + op)
        if k == 'b':
            if op == 'BitAnd':
                return band(a, b)
            if op == 'BitOr':
                return bor(a, b)
            if op in ('BitXor', 'Ne'):
                return bxor(a, b)
            if op == 'Eq':
                return bnot(bxor(a, b))
            if op == 'Lt':
                return band(bnot(a), b)
            if op == 'Le':
                return bor(bnot(a), b)
            if op == 'Gt':
                return band(a, bnot(b))
            if op == 'Ge':
                return bor(a, bnot(b))
            raise Undecided('bool ' + op)
        c = self.ctx
        if op == 'Lt':
            return ilt(a, b)
        if op == 'Le':
            return ile(a, b)
        if op == 'Gt':
            return ilt(b, a)
        if op == 'Ge':
            return ile(b, a)
        if op == 'Eq':
            return ieq(a, b)
        if op == 'Ne':
            return bnot(ieq(a, b))
        ty = tyf()
        if op in ('Add', 'AddUnchecked'):
            return self.wrap(iadd(a, b), ty)
        if op in ('Sub', 'SubUnchecked'):
            return self.wrap(isub(a, b), ty)
        if op in ('Mul', 'MulUnchecked'):
            return self.wrap(imul(a, b), ty)
        if op in ('Div', 'Rem'):
            bl, bh = c.iv(b)
            al, ah = c.iv(a)
            if al == ah and bl == bh and bl != 0:
                q = abs(al) // abs(bl)
                q = q if (al < 0) == (bl < 0) else -q
                return ic(q) if op == 'Div' else ic(al - q * bl)
            if bl == bh and bl != 0:
                if op == 'Div':
                    return self.wrap(itruncdiv(a, bl, c), ty)
                return itruncmod(a, bl, c)
            return mk('itd' if op == 'Div' else 'itm', (a, b))
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            return self.shift(op, a, b, ty)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            return self.bits(op, a, b, ty)
        raise Undecided('integer ' + op)

    def bits(self, op, a, b, ty):
        lo, hi = self.p.rng(ty)
        al, ah = self.ctx.iv(a)
        bl, bh = self.ctx.iv(b)
        if al == ah and bl == bh:
            r = al & bl if op == 'BitAnd' else al | bl if op == 'BitOr' else al ^ bl
            return ic(r)
        if al == ah:
            a, b, al, ah, bl, bh = b, a, bl, bh, al, ah
        if bl == bh:
            m = bl
            if op == 'BitAnd':
                if m == 0:
                    return ic(0)
                if m == -1 or (lo == 0 and m == hi):
                    return a
                if m > 0 and (m & (m + 1)) == 0:
                    return isub(a, iscale(ifloordiv(a, m + 1, self.ctx), m + 1))
                if m < 0 and ((-m) & (-m - 1)) == 0:
                    return iscale(ifloordiv(a, -m, self.ctx), -m)
            if op in ('BitOr', 'BitXor') and m == 0:
                return a
            if op == 'BitXor' and m == -1:
                return isub(ic(-1), a)
        if op == 'BitAnd' and al >= 0 and bl >= 0:
            hi = min(ah, bh)
            lo = 0
        elif op in ('BitOr', 'BitXor') and al >= 0 and bl >= 0:
            lo, hi = 0, min(hi, (1 << max(ah, bh).bit_length()) - 1)
        return mk('ibit', (a, b), (op, lo, hi))

    def binop_other(self, op, a, b):
        if a.__class__ is IteVal:
            return self.map1(a, lambda x: self.binop_other(op, x, b))
        if b.__class__ is IteVal:
            return self.map1(b, lambda x: self.binop_other(op, a, x))
        if a.__class__ is Ref and b.__class__ is Ref and op in ('Eq', 'Ne'):
            return bc(a.same(b) == (op == 'Eq'))
        if op == 'Offset' and a.__class__ is Ref and b.__class__ is Node and b.op == 'ic':
            return self.offset(a, b.p)
        if a.__class__ is Agg and b.__class__ is Agg and not a.f and not b.f and op in ('Eq', 'Ne') and a.ty == b.ty:
            return bc((a.v == b.v) == (op == 'Eq'))
        raise Undecided('operation %s on %r' % (op, a))

    def copy(self, src, dst, n):
        """copy n elements between two element pointers"""
        def elems(r):
            return r.__class__ is Ref and r.sl is None and r.path and r.path[-1].__class__ is int and self.isarray(r.root, r.path[:-1])
        if n.__class__ is not Node or n.op != 'ic':
            raise Undecided('copy of a varying number of elements')
        if n.p == 0:
            return
        if n.p == 1 and src.__class__ is Ref and dst.__class__ is Ref:
            self.write(dst.root, dst.path, self.read(src.root, src.path))
            return
        if not elems(src) or not elems(dst):
            raise Undecided('copy between pointers')
        vals = [self.read(src.root, src.path[:-1] + (src.path[-1] + i,)) for i in range(n.p)]
        for i, v in enumerate(vals):
            self.write(dst.root, dst.path[:-1] + (dst.path[-1] + i,), v)

    def isarray(self, root, path):
        v = self.resolve(self.read(root, path))
        if v.__class__ is IteVal:
            return False
        return v.__class__ is Agg and (v.ty == 'buffer' or self.p.types.get(v.ty, {}).get('k') in ('array', 'slice'))

    def offset(self, a, n):
        if n == 0:
            return a
        if a.sl is None and a.path and a.path[-1].__class__ is int:
            return Ref(a.root, a.path[:-1] + (a.path[-1] + n,))
        raise Undecided('pointer arithmetic on %r by %r' % (a, n))

    def i2f(self, n):
        if n.op == 'f2i':
            A = self.ctx.iv(n.args[0])
            l, h = self.ctx.iv(n)
            if not A[2] and (A[0] > n.p[0] - 1 or l > n.p[0]) and (A[1] < n.p[1] + 1 or h < n.p[1]):
                return f1('ftrunc', n.args[0])
        return i2f(n)

    def cast(self, fr, rv):
        kind, op, ty = rv[1], rv[2], rv[3]
        v = self.operand(fr, op)
        T = self.p.types
        if kind == 'IntToInt':
            if v.kind == 'b':
                return iite(v, ic(1), ic(0))
            return self.wrap(v, ty)
        if kind == 'IntToFloat':
            if T[ty]['bits'] != 64:
                return self.f32(self.i2f(v))
            return self.i2f(v)
        if kind == 'FloatToInt':
            return self.f2i(v, ty)
        if kind == 'FloatToFloat':
            if T[ty]['bits'] == 64:
                return v
            return self.f32(v)
        if kind in ('Coerce:Unsize',) or kind.startswith('Coerce:Unsize'):
            vt = rv[4] if len(rv) > 4 else None
            if vt:
                self.p.vtab[vt['from'], vt['to']] = vt['vt']
                self.p.vdrop[vt['from']] = vt.get('drop')
            return self.map1(v, lambda r: self.unsize(r, self.op_ty(fr, op), ty))
        if kind.startswith('Coerce:Reify') or kind.startswith('Coerce:Closure') or kind.startswith('Coerce:ClosureFnPointer'):
            extra = rv[4] if len(rv) > 4 else None
            key = extra['key'] if isinstance(extra, dict) else extra
            if key is None and v.__class__ is Fn:
                return v
            return Fn(key)
        if kind.startswith('Coerce') or kind in ('PtrToPtr', 'FnPtrToPtr'):
            if v.__class__ is Ref and v.sl is not None and T[ty]['k'] in ('ptr', 'ref') and T[T[ty]['e']]['k'] not in ('slice', 'str', 'dyn'):
                et = T[ty]['e']
                ft = T[self.op_ty(fr, op)]
                if T[et]['k'] != 'array' or ft['k'] in ('ptr', 'ref') and T[ft['e']]['k'] == 'slice' and T[ft['e']]['e'] == et:
                    return Ref(v.root, v.path + (v.sl[0],))
                w = self.resolve(self.read(v.root, v.path))
                if v.sl[0] == 0 and w.__class__ is Agg and len(w.f) == v.sl[1]:
                    return Ref(v.root, v.path)
                return v
            if v.__class__ is Ref and v.sl is None and kind == 'PtrToPtr' and T[ty]['k'] == 'ptr':
                ft = T[self.op_ty(fr, op)]
                if ft['k'] in ('ptr', 'ref') and T[ft['e']]['k'] == 'array' and T[ft['e']]['e'] == T[ty]['e']:
                    return Ref(v.root, v.path + (0,))
            return v
        if kind in ('Transmute', 'BoxDerefTransmute'):
            while kind == 'BoxDerefTransmute' and v.__class__ is Agg and v.f:
                v = self.resolve(v.f[0])
            if v.__class__ is Ref:
                return v
            if v.__class__ is Agg and len(v.f) == 1 and T[ty]['k'] in ('ptr', 'ref', 'pat'):
                return v.f[0]
            if v.__class__ is Agg and T[ty]['k'] == T.get(v.ty, {}).get('k') == 'array':
                return Agg(ty, None, v.f)
            if v.__class__ is Node and v.kind == 'f' and T[ty]['k'] == 'int':
                return self.tobits(v)
            if v.__class__ is Node and v.kind == 'i' and T[ty]['k'] == 'float':
                return self.frombits(v)
            if v.__class__ is Node and v.kind == 'i' and T[ty]['k'] in ('int', 'char'):
                return self.wrap(v, ty)
            if v.__class__ is Agg and T[ty]['k'] == 'int':
                while v.__class__ is Agg and len(v.f) == 1:
                    v = v.f[0]
                if v.__class__ is Node and v.kind == 'i':
                    return v
            if v.__class__ is Agg and T[ty]['k'] == 'adt' and T[ty]['name'] in ('std::ptr::NonNull', 'std::ptr::Unique'):
                while v.__class__ is Agg and len(v.f) == 1:
                    v = v.f[0]
            if v.__class__ is Ref:
                return v
            if (v.__class__ is Node and v.kind == 'i' or v.__class__ is Agg and not v.f) and T[ty]['k'] == 'adt' and T[ty]['name'] in ('std::ptr::NonNull', 'std::ptr::Unique'):
                # the dangling pointer of an empty buffer
                return Agg(ty, 0, (Ref(self.alloc(Agg('buffer', None, ())), (0,)),))
            if v.__class__ is Node and v.kind == 'i' and T[ty]['k'] == 'adt':
                r = self.nonzero(v, ty)
                if r is not None:
                    return r
            raise Undecided('transmute of %r to %s' % (v, self.p.tyname(ty)))
        raise Undecided('cast ' + kind)

    def nonzero(self, v, ty):
        """an integer seen as NonZero or Option<NonZero>"""
        t = self.p.types[ty]
        if t['name'] == 'std::option::Option':
            inner = t['v'][1]['f'][0][1]
            x = self.nonzero(v, inner) if self.p.types[inner]['k'] == 'adt' else None
            if x is None:
                return None
            lo, hi = self.ctx.iv(v)
            some, none = Agg(ty, 1, (x,)), Agg(ty, 0, ())
            if lo > 0 or hi < 0:
                return some
            if lo == hi == 0:
                return none
            return self.merge(ieq(v, ic(0)), none, some)
        if t['name'].split('::')[-1] in ('NonZero', 'Alignment', 'NonZeroUsizeInner', 'NonZeroU64Inner', 'UsizeNoHighBit', 'Cap'):
            return Agg(ty, 0, (v,))
        return None

    def f32(self, v):
        if v.op == 'fc':
            try:
                return fc(struct.unpack('<f', struct.pack('<f', cval(v)))[0])
            except OverflowError:
                return fc(math.copysign(INF, cval(v)))
        n = mk('fopq', (v,), 'f32')
        return n

    def tobits(self, v):
        if v.op == 'fc':
            return ic(struct.unpack('<Q', struct.pack('<d', cval(v)))[0])
        n = mk('iopq', (v,), 'bits')
        SYMR[n] = (0, 2**64 - 1)
        return n

    def frombits(self, v):
        if v.op == 'ic':
            return fc(struct.unpack('<d', struct.pack('<Q', v.p))[0])
        if v.op == 'iopq' and v.p == 'bits':
            return v.args[0]
        return mk('fopq', (v,), 'frombits')

    def f2i(self, v, ty):
        lo, hi = self.p.rng(ty)
        if self.f2i_hook is not None:
            r = self.f2i_hook(self, v, lo, hi)
            if r is not None:
                return r
        return self._f2i(v, lo, hi)

    def _f2i(self, v, lo, hi):
        if v.op == 'fc':
            x = cval(v)
            if x != x:
                return ic(0)
            return ic(max(lo, min(hi, x if math.isinf(x) else int(x))) if not math.isinf(x) else (hi if x > 0 else lo))
        if v.op == 'i2f':
            l, h = self.ctx.iv(v.args[0])
            if l >= lo and h <= hi and -2**53 <= l and h <= 2**53:
                return v.args[0]
        if v.op == 'ftrunc':
            return self._f2i(v.args[0], lo, hi)
        if v.op == 'fite':
            return iite(v.args[0], self._f2i(v.args[1], lo, hi), self._f2i(v.args[2], lo, hi))
        return mk('f2i', (v,), (lo, hi))

    def unsize(self, r, fromty, ty):
        T = self.p.types
        if r.__class__ is Ref and T[ty]['k'] in ('ref', 'ptr') and T[T[ty]['e']]['k'] == 'slice':
            v = T[T[fromty]['e']]
            if v['k'] == 'array' and r.sl is None:
                return Ref(r.root, r.path, (0, v['n']))
        return r

    # -- calls
    def do_call(self, fr, t):
        f, argops, dest, target = t[1], t[2], t[3], t[4]
        args = [self.operand(fr, a) for a in argops]
        dty = self.place_ty(fr, dest)
        r = self.call(fr, f, args, dty, target)
        if r is DIVERGED:
            return False
        if target is None:
            return False
        if len(dest) == 1:
            self.mem[(fr.id, dest[0])] = r
        else:
            self.wgate(self.place(fr, dest), r)
        return True

    def call(self, fr, f, args, dty, target=0):
        if 'ptr' in f:
            v = self.resolve(self.operand(fr, f['ptr']))
            return self.call_value(v, args, dty)
        if f.get('empty'):
            return Agg(dty, None, ())
        key = f.get('key')
        d = f['def']
        fn = self.p.fns.get(key)
        if fn is not None:
            d2 = fn['def']
        else:
            d2 = f.get('iname') or d
        o = self.opaque(key, fn)
        if o is not None:
            self.opaque_calls.append(key)
            return o(self, key, args, dty) if callable(o) else self.opaque_result(o, args, dty)
        h = self.native(d, d2, f, fn)
        if h is not None:
            r = h(self, args, dty, f)
            if r is not NotImplemented:
                return r
        if key and key.startswith('<std::boxed::Box<') and key.endswith(' as std::ops::Drop>::drop'):
            return Agg(dty, None, ())       # only frees the memory, the contents were dropped before
        if fn is not None and 'body' in fn:
            if d in FNCALL and f.get('kind') == 'Item' and len(args) == 2 and args[1].__class__ is Agg and fn['body']['argc'] == len(args[1].f) + 1:
                args = [args[0]] + list(args[1].f)     # a closure body takes the elements of the argument tuple
            return self.call_key(key, args)
        if d in FNCALL and len(args) == 2 and args[1].__class__ is Agg and f.get('kind') != 'Item':
            return self.call_value(args[0], list(args[1].f), dty)      # a trait object
        m = re.match(r'Virtual \{ idx: (\d+) \}', str(f.get('kind')))
        if m and args:
            return self.call_virtual(int(m.group(1)), f, list(args), dty)
        if target is None or self.p.types[dty]['k'] == 'never':
            self.alarm('panic', self.panic_msg(d2, args), False)
            return DIVERGED
        raise Undecided('call of %s (%s) in %s at %s' % (d2, d, self.frames[-1].key if self.frames else '-', self.where()))

    def panic_msg(self, d, args):
        for a in args:
            if a.__class__ is Str:
                return '%s(%s)' % (d, a.b.decode('utf8', 'replace'))
        return d

    def call_virtual(self, idx, f, args, dty):
        """a method of a trait object: the receiver's own type says which"""
        v = self.resolve(args[0])
        if v.__class__ is IteVal:
            return self.with_cond(v.c, lambda: self.call_virtual(idx, f, [v.a] + args[1:], dty), lambda: self.call_virtual(idx, f, [v.b] + args[1:], dty))
        w = v
        while w.__class__ is Ref:
            w = self.resolve(self.read(w.root, w.path))
        vt = self.p.vtab.get((w.ty, f['args'][0])) if w.__class__ is Agg and f['args'].__class__ is list else None
        key = vt[idx] if vt and idx < len(vt) else None
        if key is None or key not in self.p.fns:
            raise Undecided('method of a trait object: ' + f['def'])
        return self.call(self.frames[-1] if self.frames else None, dict(f, key=key, iname=key, kind='Item'), args, dty)

    def call_value(self, v, args, dty):
        v = self.resolve(v)
        if v.__class__ is IteVal:
            return self.with_cond(v.c, lambda: self.call_value(v.a, args, dty), lambda: self.call_value(v.b, args, dty))
        if v.__class__ is Ref:
            w = self.resolve(self.read(v.root, v.path))
            if w.__class__ is Agg and self.p.types.get(w.ty, {}).get('k') == 'closure':
                return self.call_closure(w, v, args, dty)
            return self.call_value(w, args, dty)
        if v.__class__ is Fn:
            key = v.key
            fn = self.p.fns.get(key)
            f = v.d or ({'def': fn['def'], 'key': key, 'iname': key} if fn else None)
            if f is None:
                raise Undecided('function value')
            f = dict(f)
            f.setdefault('key', key)
            return self.call(self.frames[-1] if self.frames else None, f, list(args), dty)
        if v.__class__ is Agg and self.p.types.get(v.ty, {}).get('k') == 'closure':
            return self.call_closure(v, None, args, dty)
        raise Undecided('call of %r' % (v,))

    def call_closure(self, clo, ref, args, dty):
        key = self.p.closure_key(clo.ty)
        if key is None:
            raise Undecided('closure without a body: ' + self.p.tyname(clo.ty))
        body = self.p.fns[key]['body']
        t1 = self.p.types[body['locals'][1]]
        if t1['k'] in ('ref', 'ptr'):
            env = ref if ref is not None else Ref(self.alloc(clo))
        else:
            env = clo
        return self.call_key(key, [env] + list(args))

    # opaque results, structured by type, each scalar leaf a function of the argument leaves
    def leaves(self, v, out=None):
        if out is None:
            out = []
        v = self.resolve(v)
        if v.__class__ is Node:
            out.append(v)
        elif v.__class__ is Agg:
            if v.v not in (None, 0):
                out.append(ic(v.v))
            for x in v.f:
                self.leaves(x, out)
        elif v.__class__ is Ref:
            self.leaves(self.rplace(self.refplace(v)), out)
        elif v.__class__ is IteVal:
            out.append(v.c)
            self.leaves(v.a, out)
            self.leaves(v.b, out)
        elif v is UNINIT:
            pass
        else:
            raise Undecided('opaque argument %r' % (v,))
        return out

    def opaque_result(self, name, args, dty):
        ls = []
        for a in args:
            self.leaves(a, ls)
        return self.opaque_val(name, tuple(ls), dty, '')

    def opaque_val(self, name, ls, ty, path):
        t = self.p.types[ty]
        k = t['k']
        if k == 'float':
            return mk('ffun', ls, (name, path))
        if k == 'int':
            n = mk('iopq', ls, (name, path))
            SYMR[n] = self.p.rng(ty)
            return n
        if k == 'bool':
            return mk('bopq', ls, (name, path))
        if k == 'tuple':
            return Agg(ty, None, tuple(self.opaque_val(name, ls, x, path + '.%d' % i) for i, x in enumerate(t['f'])))
        if k == 'array':
            return Agg(ty, None, tuple(self.opaque_val(name, ls, t['e'], path + '[%d]' % i) for i in range(t['n'])))
        if k == 'adt' and t['kind'] == 'Struct':
            return Agg(ty, 0, tuple(self.opaque_val(name, ls, x, path + '.' + n) for n, x in t['v'][0]['f']))
        if k == 'adt' and t['kind'] == 'Enum':
            r = None
            for i in reversed(range(len(t['v']))):
                a = Agg(ty, i, tuple(self.opaque_val(name, ls, x, path + '#%d.%s' % (i, n)) for n, x in t['v'][i]['f']))
                r = a if r is None else IteVal(mk('bopq', ls, (name, path + '#%d' % i)), a, r)
            return r
        raise Undecided('opaque result of type ' + self.p.tyname(ty))

    # -- symbolic inputs
    def sym(self, ty, name, rng=None):
        """a value of the type, every scalar leaf an unknown; rng maps leaf names to intervals"""
        t = self.p.types[ty]
        k = t['k']
        rng = rng or {}
        if name in rng and not isinstance(rng[name], tuple):
            return rng[name]
        if k == 'float':
            return fs(name, *rng.get(name, ()))
        if k == 'int' or k == 'char':
            return isym(name, *rng.get(name, self.p.rng(ty)))
        if k == 'bool':
            return bs(name)
        if k == 'tuple':
            return Agg(ty, None, tuple(self.sym(x, name + '.%d' % i, rng) for i, x in enumerate(t['f'])))
        if k == 'array':
            return Agg(ty, None, tuple(self.sym(t['e'], name + '[%d]' % i, rng) for i in range(t['n'])))
        if k == 'adt' and t['kind'] == 'Struct':
            return Agg(ty, 0, tuple(self.sym(x, name + '.' + n, rng) for n, x in t['v'][0]['f']))
        if k == 'adt' and t['kind'] == 'Enum':
            r = None
            for i in reversed(range(len(t['v']))):
                a = Agg(ty, i, tuple(self.sym(x, name + '#%d.%s' % (i, n), rng) for n, x in t['v'][i]['f']))
                r = a if r is None else IteVal(bs(name + '#%d' % i), a, r)
            return r
        if k in ('ref', 'ptr'):
            e = self.p.types[t['e']]
            if e['k'] == 'str':
                return Str(name.encode())
            if e['k'] == 'adt' and e['name'] == 'std::fmt::Formatter':
                return Ref(self.alloc(Nat('fmt', name)))
            return Ref(self.alloc(self.sym(t['e'], name, rng)))
        raise Undecided('unknown input of type ' + self.p.tyname(ty))

    def sym_args(self, key, names, rng=None):
        body = self.p.fns[key]['body']
        return [self.sym(body['locals'][i + 1], names[i] if i < len(names) else 'arg%d' % i, rng) for i in range(body['argc'])]

    # -- natives
    def native(self, d, d2, f, fn):
        import natives
        return natives.lookup(d, d2, f, fn)
