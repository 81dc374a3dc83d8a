"""Library primitives given by their meaning: float functions, slice iterators, memory moves, formatting, panics."""
import math
import re
from nodes import *
import interp as I
from interp import Agg, IteVal, Ref, Fn, Str, It, Nat, UNINIT, DIVERGED, Undecided

FM = {}


def fm(name):
    def d(f):
        FM[name] = f
        return f
    return d


def un(op):
    return lambda s, a, ty: f1(op, a[0])


for _n, _op in dict(sqrt='fsqrt', sin='fsin', cos='fcos', tan='ftan', asin='fasin', acos='facos', atan='fatan', abs='fabs',
                    floor='ffloor', ceil='fceil', round='fround', trunc='ftrunc', exp='fexp', ln='fln', log10='flog10',
                    round_ties_even='froundeven', cbrt='fcbrt', sinh='fsinh', cosh='fcosh', tanh='ftanh', neg='fneg').items():
    FM[_n] = un(_op)
FM['fabs'] = FM['abs']
FM['rint'] = FM['round_ties_even']
FM['atan2'] = lambda s, a, ty: f2('fatan2', a[0], a[1])
FM['fract'] = lambda s, a, ty: f2('fsub', a[0], f1('ftrunc', a[0]))
FM['mul_add'] = lambda s, a, ty: mk('ffma', (a[0], a[1], a[2]))
FM['fma'] = FM['mul_add']
FM['hypot'] = lambda s, a, ty: f1('fsqrt', f2('fadd', f2('fmul', a[0], a[0]), f2('fmul', a[1], a[1])))
FM['recip'] = lambda s, a, ty: f2('fdiv', fc(1.0), a[0])
FM['max'] = lambda s, a, ty: mk('fmax', (a[0], a[1]))
FM['min'] = lambda s, a, ty: mk('fmin', (a[0], a[1]))
FM['copysign'] = lambda s, a, ty: mk('fcopysign', (a[0], a[1]))
FM['to_radians'] = lambda s, a, ty: f2('fmul', a[0], fc(math.pi / 180.0))
FM['to_degrees'] = lambda s, a, ty: f2('fmul', a[0], fc(180.0 / math.pi))
FM['is_nan'] = lambda s, a, ty: bnot(feq(a[0], a[0]))
FM['is_finite'] = lambda s, a, ty: flt(f1('fabs', a[0]), fc(INF))
FM['is_infinite'] = lambda s, a, ty: feq(f1('fabs', a[0]), fc(INF))
FM['powf'] = lambda s, a, ty: mk('fpow', (a[0], a[1]))
FM['pow'] = FM['powf']
FM['exp2'] = lambda s, a, ty: mk('fpow', (fc(2.0), a[0]))
FM['powif'] = lambda s, a, ty: powi(s, a, ty)
FM['sin_cos'] = lambda s, a, ty: Agg(ty, None, (f1('fsin', a[0]), f1('fcos', a[0])))
FM['to_bits'] = lambda s, a, ty: s.tobits(a[0])
FM['from_bits'] = lambda s, a, ty: s.frombits(a[0])


@fm('powi')
def powi(s, a, ty):
    n = a[1]
    if n.op != 'ic' or abs(n.p) > 16:
        return mk('fopq', (a[0], n), 'powi')
    k = abs(n.p)
    if k == 0:
        return fc(1.0)
    r = a[0]
    for _ in range(k - 1):
        r = f2('fmul', r, a[0])
    return r if n.p > 0 else f2('fdiv', fc(1.0), r)


@fm('rem_euclid')
def rem_euclid(s, a, ty):
    r = f2('frem', a[0], a[1])
    return fite(flt(r, fc(0.0)), f2('fadd', r, f1('fabs', a[1])), r)


@fm('div_euclid')
def div_euclid(s, a, ty):
    q = f1('ftrunc', f2('fdiv', a[0], a[1]))
    r = f2('frem', a[0], a[1])
    up = fite(flt(fc(0.0), a[1]), f2('fsub', q, fc(1.0)), f2('fadd', q, fc(1.0)))
    return fite(flt(r, fc(0.0)), up, q)


@fm('signum')
def signum(s, a, ty):
    return fite(bnot(feq(a[0], a[0])), a[0], mk('fcopysign', (fc(1.0), a[0])))


def signbit(x):
    # true for negative numbers and -0; NaN: either
    if x.op == 'fc':
        return bc(math.copysign(1.0, cval(x)) < 0)
    return flt(mk('fcopysign', (fc(1.0), x)), fc(0.0))


FM['is_sign_negative'] = lambda s, a, ty: signbit(a[0])
FM['is_sign_positive'] = lambda s, a, ty: bnot(signbit(a[0]))


@fm('clamp')
def clamp(s, a, ty):
    lo, hi = a[1], a[2]
    c = fle(lo, hi)
    d = s.ctx.decide(c)
    if d is not True:
        s.alarm('panic', 'clamp with min > max or NaN', d is False)
        if d is False:
            return DIVERGED
        k = s.ctx.assume(c, True)
        if k is None:
            return DIVERGED
        s.ctx = k
    x = a[0]
    x = fite(flt(x, lo), lo, x)
    return fite(flt(hi, x), hi, x)


@fm('abs_sub')
def abs_sub(s, a, ty):
    return mk('fmax', (f2('fsub', a[0], a[1]), fc(0.0)))


def f_native(name):
    h = FM.get(name)
    if h is None:
        return None

    def g(s, args, dty, f):
        if any(a.__class__ is not Node for a in args):
            return NotImplemented
        if args[0].kind != 'f' and name not in ('from_bits',):
            return NotImplemented
        return h(s, args, dty)
    return g


# ---------------------------------------------------------------- helpers
def opt(ty, v=None):
    return Agg(ty, 0, ()) if v is None else Agg(ty, 1, (v,))


def through(s, ref, f):
    """apply f(value, set) to the value behind a (gated) reference"""
    ref = s.resolve(ref)
    if ref.__class__ is IteVal:
        return s.with_cond(ref.c, lambda: through(s, ref.a, f), lambda: through(s, ref.b, f))
    pl = s.refplace(ref)
    v = s.resolve(s.rplace(pl))
    if v.__class__ is IteVal:
        def side(x):
            def g():
                s.wgate(pl, x)
                return through(s, ref, f)
            return g
        return s.with_cond(v.c, side(v.a), side(v.b))
    return f(as_it(s, v), lambda x: s.wgate(pl, x))


def select(s, args, dty, f):
    return s.merge(args[0], args[1], args[2])


def int_ext(mx):
    def h(s, args, dty, f):
        if len(args) != 2 or any(a.__class__ is not Node or a.kind != 'i' for a in args):
            return NotImplemented
        a, b = args
        if a.op == 'ic':
            a, b = b, a
        memo = {}

        def push(n):
            if n.op == 'iite' and b.op == 'ic':
                r = memo.get(n)
                if r is None:
                    r = memo[n] = iite(n.args[0], push(n.args[1]), push(n.args[2]))
                return r
            return iite(ilt(n, b), b if mx else n, n if mx else b)
        return push(a)
    return h


def it_elem(s, it, i):
    if it.vals is not None:
        return it.vals[i]
    return Ref(it.ref.root, it.ref.path + (i,))


def it_next(s, args, dty, f):
    def g(it, put):
        if it.__class__ is not It:
            return NotImplemented
        if it.i >= it.j:
            return opt(dty)
        put(It(it.ref, it.vals, it.i + 1, it.j))
        return opt(dty, it_elem(s, it, it.i))
    return through(s, args[0], g)


def it_next_back(s, args, dty, f):
    def g(it, put):
        if it.__class__ is not It:
            return NotImplemented
        if it.i >= it.j:
            return opt(dty)
        put(It(it.ref, it.vals, it.i, it.j - 1))
        return opt(dty, it_elem(s, it, it.j - 1))
    return through(s, args[0], g)


def it_nth(back):
    def h(s, args, dty, f):
        n = args[1]
        if n.op != 'ic':
            return NotImplemented

        def g(it, put):
            if it.__class__ is not It:
                return NotImplemented
            if n.p >= it.j - it.i:
                put(It(it.ref, it.vals, it.j, it.j))
                return opt(dty)
            if back:
                put(It(it.ref, it.vals, it.i, it.j - n.p - 1))
                return opt(dty, it_elem(s, it, it.j - n.p - 1))
            put(It(it.ref, it.vals, it.i + n.p + 1, it.j))
            return opt(dty, it_elem(s, it, it.i + n.p))
        return through(s, args[0], g)
    return h


def as_it(s, v):
    """a slice iterator written as its two pointers"""
    if v.__class__ is Agg and len(v.f) >= 2:
        a, b = s.resolve(v.f[0]), s.resolve(v.f[1])
        for _ in range(3):
            a = s.resolve(a.f[0]) if a.__class__ is Agg and len(a.f) == 1 else a
            b = s.resolve(b.f[0]) if b.__class__ is Agg and len(b.f) == 1 else b
        if a.__class__ is Ref and b.__class__ is Ref and a.sl is None and b.sl is None and a.root == b.root and a.path and b.path \
                and a.path[:-1] == b.path[:-1] and a.path[-1].__class__ is int and b.path[-1].__class__ is int \
                and s.p.types.get(v.ty, {}).get('name') in ('std::slice::Iter', 'std::slice::IterMut'):
            return It(Ref(a.root, a.path[:-1]), None, a.path[-1], b.path[-1])
    return v


def get_it(s, v):
    v = s.resolve(v)
    if v.__class__ is Ref:
        v = s.resolve(s.rplace(s.refplace(v)))
    v = as_it(s, v)
    return v if v.__class__ is It else None


def ptr_diff(s, args, dty, f):
    a, b = s.resolve(args[0]), s.resolve(args[1])
    if a.__class__ is Ref and b.__class__ is Ref and a.sl is None and b.sl is None and a.root == b.root and a.path and b.path \
            and a.path[:-1] == b.path[:-1] and a.path[-1].__class__ is int and b.path[-1].__class__ is int:
        return ic(a.path[-1] - b.path[-1])
    return NotImplemented


def it_len(s, args, dty, f):
    it = get_it(s, args[0])
    return NotImplemented if it is None else ic(it.j - it.i)


def it_size_hint(s, args, dty, f):
    it = get_it(s, args[0])
    if it is None:
        return NotImplemented
    t = s.p.types[dty]['f']
    return Agg(dty, None, (ic(it.j - it.i), opt(t[1], ic(it.j - it.i))))


def it_fold(back):
    def h(s, args, dty, f):
        it = get_it(s, args[0])
        if it is None:
            return NotImplemented
        acc = args[1]
        fref = Ref(s.alloc(args[2]))
        rng = range(it.i, it.j)
        for i in (reversed(rng) if back else rng):
            acc = s.call_value(fref, [acc, it_elem(s, it, i)], dty)
            if acc is DIVERGED:
                return DIVERGED
        s.drop_value(fref)
        return acc
    return h


def it_for_each(s, args, dty, f):
    it = get_it(s, args[0])
    if it is None:
        return NotImplemented
    fref = Ref(s.alloc(args[1]))
    for i in range(it.i, it.j):
        if s.call_value(fref, [it_elem(s, it, i)], dty) is DIVERGED:
            return DIVERGED
    s.drop_value(fref)
    return Agg(dty, None, ())


def it_search(kind):
    """position, rposition, find, any, all, find_map: predicate on successive elements, stopping at the first hit"""
    def h(s, args, dty, f):
        def g(it, put):
            if it.__class__ is not It:
                return NotImplemented
            fref = Ref(s.alloc(args[1]))
            back = kind == 'rposition'
            idx = list(reversed(range(it.i, it.j))) if back else list(range(it.i, it.j))
            bt = s.p.find_ty('bool')

            def hit(i):
                if back:
                    put(It(it.ref, it.vals, it.i, i))
                else:
                    put(It(it.ref, it.vals, i + 1, it.j))
                if kind in ('position', 'rposition'):
                    return opt(dty, ic(i - it.i))
                if kind == 'find':
                    return opt(dty, it_elem(s, it, i))
                return bc(kind == 'any')

            def go(n):
                if n == len(idx):
                    put(It(it.ref, it.vals, it.i, it.i) if back else It(it.ref, it.vals, it.j, it.j))
                    return bc(kind == 'all') if kind in ('any', 'all') else opt(dty)
                i = idx[n]
                e = it_elem(s, it, i)
                if kind == 'find':
                    e = Ref(s.alloc(e))
                c = s.call_value(fref, [e], bt)
                if c is DIVERGED:
                    return DIVERGED
                if kind == 'all':
                    c = bnot(c)
                return s.with_cond(c, lambda: hit(i), lambda: go(n + 1))
            return go(0)
        if args[0].__class__ is It:
            a0 = Ref(s.alloc(args[0]))
        else:
            a0 = args[0]
        return through(s, a0, g)
    return h


IT = dict(next=it_next, next_back=it_next_back, nth=it_nth(False), nth_back=it_nth(True), len=it_len, count=it_len, size_hint=it_size_hint,
          fold=it_fold(False), rfold=it_fold(True), for_each=it_for_each, position=it_search('position'), rposition=it_search('rposition'),
          find=it_search('find'), any=it_search('any'), all=it_search('all'))


def it_get_unchecked(s, args, dty, f):
    it = get_it(s, args[0])
    if it is None or args[1].op != 'ic':
        return NotImplemented
    return it_elem(s, it, it.i + args[1].p)


def it_is_empty(s, args, dty, f):
    it = get_it(s, args[0])
    return NotImplemented if it is None else bc(it.i >= it.j)


def it_last(s, args, dty, f):
    it = get_it(s, args[0])
    if it is None:
        return NotImplemented
    return opt(dty) if it.i >= it.j else opt(dty, it_elem(s, it, it.j - 1))


IT['is_empty'] = it_is_empty
IT['__iterator_get_unchecked'] = it_get_unchecked
IT['last'] = it_last


def it_clone(s, args, dty, f):
    it = get_it(s, args[0])
    return NotImplemented if it is None else it


IT['clone'] = it_clone


# slices
def slice_ref(s, v):
    v = s.resolve(v)
    if v.__class__ is Ref and v.sl is not None:
        return v
    return None


def sl_iter(s, args, dty, f):
    def g(v):
        if v.__class__ is Ref and v.sl is not None:
            return It(Ref(v.root, v.path), None, v.sl[0], v.sl[0] + v.sl[1])
        raise Undecided('iterator over %r' % (v,))
    return s.map1(args[0], g)


def sl_len(s, args, dty, f):
    return s.map1(args[0], s.meta)


def sl_is_empty(s, args, dty, f):
    return s.map1(args[0], lambda v: bc(s.meta(v).p == 0))


def elem(v, i):
    if i.__class__ is Node and i.op == 'ic':
        i = i.p
    return Ref(v.root, v.path + ((v.sl[0] + i) if isinstance(i, int) else iadd(i, ic(v.sl[0])),))


def sl_get(s, args, dty, f):
    v = slice_ref(s, args[0])
    i = args[1]
    if v is None:
        return NotImplemented
    if i.__class__ is Node:
        c = ilt(i, ic(v.sl[1]))
        return s.with_cond(c, lambda: opt(dty, elem(v, i)), lambda: opt(dty))
    r = range_of(s, i, v.sl[1])
    if r is None:
        return NotImplemented
    a, b = r
    if a <= b <= v.sl[1]:
        return opt(dty, Ref(v.root, v.path, (v.sl[0] + a, b - a)))
    return opt(dty)


def sl_get_unchecked(s, args, dty, f):
    v = slice_ref(s, args[0])
    if v is None or args[1].__class__ is not Node:
        return NotImplemented
    return elem(v, args[1])


def sl_end(k):
    def h(s, args, dty, f):
        v = slice_ref(s, args[0])
        if v is None:
            return NotImplemented
        if v.sl[1] == 0:
            return opt(dty)
        return opt(dty, elem(v, 0 if k == 0 else v.sl[1] - 1))
    return h


def sl_swap(s, args, dty, f):
    v = slice_ref(s, args[0])
    if v is None or args[1].op != 'ic' or args[2].op != 'ic':
        return NotImplemented
    i, j = args[1].p, args[2].p
    if max(i, j) >= v.sl[1]:
        s.alarm('panic', 'swap out of range', True)
        return DIVERGED
    a, b = s.refplace(elem(v, i)), s.refplace(elem(v, j))
    x, y = s.rplace(a), s.rplace(b)
    s.wgate(a, y)
    s.wgate(b, x)
    return Agg(dty, None, ())


def sl_reverse(s, args, dty, f):
    v = slice_ref(s, args[0])
    if v is None:
        return NotImplemented
    pl = s.refplace(v)
    a = s.rplace(pl)
    s.wgate(pl, Agg(a.ty, a.v, tuple(reversed(a.f))))
    return Agg(dty, None, ())


def sl_fill(s, args, dty, f):
    v = slice_ref(s, args[0])
    if v is None:
        return NotImplemented
    pl = s.refplace(v)
    a = s.rplace(pl)
    s.wgate(pl, Agg(a.ty, a.v, (args[1],) * len(a.f)))
    return Agg(dty, None, ())


def sl_copy(s, args, dty, f):
    v, w = slice_ref(s, args[0]), slice_ref(s, args[1])
    if v is None or w is None:
        return NotImplemented
    if v.sl[1] != w.sl[1]:
        s.alarm('panic', 'copy_from_slice: lengths differ', True)
        return DIVERGED
    s.wgate(s.refplace(v), s.rplace(s.refplace(w)))
    return Agg(dty, None, ())


def sl_partition_point(s, args, dty, f):
    """number of leading elements satisfying the predicate (the slice is partitioned by contract)"""
    v = slice_ref(s, args[0])
    if v is None:
        return NotImplemented
    fref = Ref(s.alloc(args[1]))
    bt = s.p.find_ty('bool')

    def go(i):
        if i == v.sl[1]:
            return ic(i)
        c = s.call_value(fref, [elem(v, i)], bt)
        if c is DIVERGED:
            return c
        return s.with_cond(c, lambda: go(i + 1), lambda: ic(i))
    return go(0)


def sl_split_at(s, args, dty, f):
    v = slice_ref(s, args[0])
    if v is None or args[1].op != 'ic' or args[1].p > v.sl[1]:
        return NotImplemented
    n = args[1].p
    return Agg(dty, None, (Ref(v.root, v.path, (v.sl[0], n)), Ref(v.root, v.path, (v.sl[0] + n, v.sl[1] - n))))


SL = dict(iter=sl_iter, iter_mut=sl_iter, len=sl_len, is_empty=sl_is_empty, get=sl_get, get_mut=sl_get, get_unchecked=sl_get_unchecked,
          get_unchecked_mut=sl_get_unchecked, first=sl_end(0), last=sl_end(1), first_mut=sl_end(0), last_mut=sl_end(1), swap=sl_swap,
          reverse=sl_reverse, fill=sl_fill, copy_from_slice=sl_copy, clone_from_slice=sl_copy, partition_point=sl_partition_point,
          split_at=sl_split_at)


def range_of(s, r, n):
    r = s.resolve(r)
    if r.__class__ is not Agg:
        return None
    nm = s.p.types.get(r.ty, {}).get('name', '')
    fs_ = [x.p if x.__class__ is Node and x.op == 'ic' else None for x in r.f]
    k = nm.split('::')[-1]
    if k == 'RangeFull':
        return 0, n
    if None in fs_ and k != 'RangeInclusive':
        return None
    if k == 'Range':
        return fs_[0], fs_[1]
    if k == 'RangeFrom':
        return fs_[0], n
    if k == 'RangeTo':
        return 0, fs_[0]
    if k == 'RangeToInclusive':
        return 0, fs_[0] + 1
    if k == 'RangeInclusive' and fs_[0] is not None and fs_[1] is not None:
        return fs_[0], fs_[1] + 1
    return None


def sidx_range(s, args, dty, f):
    v = slice_ref(s, args[1])
    if v is None:
        return NotImplemented
    r = range_of(s, args[0], v.sl[1])
    if r is None:
        return NotImplemented
    a, b = r
    if a > b or b > v.sl[1]:
        s.alarm('panic', 'slice range out of bounds', True)
        return DIVERGED
    return Ref(v.root, v.path, (v.sl[0] + a, b - a))


# arrays
def arr_map(s, args, dty, f):
    v = s.resolve(args[0])
    if v.__class__ is not Agg:
        return NotImplemented
    fref = Ref(s.alloc(args[1]))
    et = s.p.types[dty]['e']
    out = []
    for x in v.f:
        r = s.call_value(fref, [x], et)
        if r is DIVERGED:
            return r
        out.append(r)
    return Agg(dty, None, tuple(out))


def arr_from_fn(s, args, dty, f):
    fref = Ref(s.alloc(args[0]))
    t = s.p.types[dty]
    if t['k'] != 'array':
        return NotImplemented
    out = []
    for i in range(t['n']):
        r = s.call_value(fref, [ic(i)], t['e'])
        if r is DIVERGED:
            return r
        out.append(r)
    return Agg(dty, None, tuple(out))


def arr_into_iter(s, args, dty, f):
    v = s.resolve(args[0])
    if v.__class__ is not Agg:
        return NotImplemented
    return It(None, tuple(v.f), 0, len(v.f))


def val_eq(s, a, b):
    a, b = s.resolve(a), s.resolve(b)
    if a.__class__ is IteVal:
        return bite(a.c, val_eq(s, a.a, b), val_eq(s, a.b, b))
    if b.__class__ is IteVal:
        return bite(b.c, val_eq(s, a, b.a), val_eq(s, a, b.b))
    if a.__class__ is Node:
        return feq(a, b) if a.kind == 'f' else ieq(a, b) if a.kind == 'i' else bnot(bxor(a, b))
    if a.__class__ is Agg:
        if a.v != b.v:
            return FALSE
        r = TRUE
        for x, y in zip(a.f, b.f):
            r = band(r, val_eq(s, x, y))
        return r
    raise Undecided('equality')


def arr_eq(neg):
    def h(s, args, dty, f):
        a, b = [s.rplace(s.refplace(x)) for x in args]
        r = val_eq(s, a, b)
        return bnot(r) if neg else r
    return h


def arr_clone(s, args, dty, f):
    return s.rplace(s.refplace(args[0]))


def arr_as_slice(s, args, dty, f):
    def g(r):
        n = len(s.resolve(s.rplace(s.refplace(r))).f)
        return Ref(r.root, r.path, (0, n))
    return s.map1(args[0], g)


# memory
def mem_replace(s, args, dty, f):
    pl = s.refplace(args[0])
    old = s.rplace(pl)
    s.wgate(pl, args[1])
    return old


def mem_swap(s, args, dty, f):
    a, b = s.refplace(args[0]), s.refplace(args[1])
    x, y = s.rplace(a), s.rplace(b)
    s.wgate(a, y)
    s.wgate(b, x)
    return Agg(dty, None, ())


def ptr_read(s, args, dty, f):
    return s.rplace(s.refplace(args[0]))


def ptr_write(s, args, dty, f):
    s.wgate(s.refplace(args[0]), args[1])
    return Agg(dty, None, ())


def unit(s, args, dty, f):
    return Agg(dty, None, ())


def ident(s, args, dty, f):
    return args[0]


# ranges
def range_next(back):
    def h(s, args, dty, f):
        def g(v, put):
            if v.__class__ is not Agg or len(v.f) != 2:
                return NotImplemented
            a, b = v.f
            if a.__class__ is not Node or a.kind != 'i':
                return NotImplemented

            def some():
                if back:
                    n = isub(b, ic(1))
                    put(Agg(v.ty, v.v, (a, n)))
                    return opt(dty, n)
                put(Agg(v.ty, v.v, (iadd(a, ic(1)), b)))
                return opt(dty, a)
            return s.with_cond(ilt(a, b), some, lambda: opt(dty))
        return through(s, args[0], g)
    return h


# integer intrinsics
def with_overflow(op):
    def h(s, args, dty, f):
        ty = s.p.types[dty]['f'][0]
        r, c = s.checked(op, args[0], args[1], ty)
        if c.op == 'bc':
            return Agg(dty, None, (r, c))
        lo, hi = s.p.rng(ty)
        return Agg(dty, None, (iite(c, mk('iwrap', (r,), (lo, hi)), r), c))
    return h


def wrapping(op):
    def h(s, args, dty, f):
        a, b = args
        r = iadd(a, b) if op == 'Add' else isub(a, b) if op == 'Sub' else imul(a, b)
        return s.wrap(r, dty)
    return h


def saturating(op):
    def h(s, args, dty, f):
        a, b = args
        r = iadd(a, b) if op == 'Add' else isub(a, b)
        lo, hi = s.p.rng(dty)
        l, h_ = s.ctx.iv(r)
        if l < lo:
            r = iite(ilt(r, ic(lo)), ic(lo), r)
        if h_ > hi:
            r = iite(ilt(ic(hi), r), ic(hi), r)
        return r
    return h


def bin_native(op):
    def h(s, args, dty, f):
        return s.binop(None, op, args[0], args[1], lambda: dty)
    return h


def discriminant_value(s, args, dty, f):
    return s.map1(args[0], lambda r: s.signed(s.disc(s.rplace(s.refplace(r))), dty))


def three_way(s, args, dty, f):
    return s.cmp3(args[0], args[1], dty)


def abort(s, args, dty, f):
    s.alarm('panic', 'abort', False)
    return DIVERGED


def mem_copy(s, args, dty, f):
    s.copy(s.resolve(args[0]), s.resolve(args[1]), args[2])
    return Agg(dty, None, ())


INTR = dict(add_with_overflow=with_overflow('Add'), sub_with_overflow=with_overflow('Sub'), mul_with_overflow=with_overflow('Mul'),
            wrapping_add=wrapping('Add'), wrapping_sub=wrapping('Sub'), wrapping_mul=wrapping('Mul'),
            saturating_add=saturating('Add'), saturating_sub=saturating('Sub'), unchecked_add=wrapping('Add'), unchecked_sub=wrapping('Sub'),
            unchecked_mul=wrapping('Mul'), unchecked_div=bin_native('Div'), unchecked_rem=bin_native('Rem'), unchecked_shl=bin_native('Shl'),
            unchecked_shr=bin_native('Shr'), exact_div=bin_native('Div'), discriminant_value=discriminant_value, three_way_compare=three_way,
            black_box=ident, likely=ident, unlikely=ident, cold_path=unit, assume=unit, abort=abort, forget=unit,
            ptr_offset_from_unsigned=ptr_diff, copy=mem_copy, copy_nonoverlapping=mem_copy, ptr_offset_from=ptr_diff, assert_inhabited=unit, assert_zero_valid=unit, read_via_copy=ptr_read, write_via_move=ptr_write,
            volatile_load=None, ub_checks=lambda s, a, d, f: FALSE, overflow_checks=lambda s, a, d, f: TRUE,
            contract_checks=lambda s, a, d, f: FALSE, is_val_statically_known=lambda s, a, d, f: FALSE,
            select_unpredictable=lambda s, a, d, f: s.merge(a[0], a[1], a[2]))


# heap buffers: an array that grows as it is written
def buf_field(s, ty):
    """(NonNull<u8> wrapper builder) for the pointer field of RawVecInner"""
    def build(t, ref):
        T = s.p.types[t]
        if T['k'] == 'adt':
            fs = T['v'][0]['f']
            return Agg(t, 0, tuple(build(x[1], ref) for x in fs))
        if T['k'] in ('ptr', 'ref', 'pat'):
            return ref
        return Agg(t, 0, ())
    return build


def buf_zero(s, t, v):
    T = s.p.types[t]
    if T['k'] == 'adt':
        return Agg(t, 0, tuple(buf_zero(s, x[1], v) for x in T['v'][0]['f']))
    return v if T['k'] in ('int', 'pat') else Agg(t, 0, ())


def buf_new(s, args, dty, f):
    T = s.p.types[dty]
    if T['k'] != 'adt' or not T['name'].endswith('RawVecInner'):
        return NotImplemented
    ref = Ref(s.alloc(Agg('buffer', None, ())), (0,))
    fs = T['v'][0]['f']
    out = []
    for nm, t in fs:
        out.append(buf_field(s, t)(t, ref) if nm == 'ptr' else buf_zero(s, t, ic(0)))
    return Agg(dty, 0, tuple(out))


def box_new(s, args, dty, f):
    T = s.p.types[dty]
    if T['k'] != 'adt' or not T.get('box'):
        return NotImplemented
    return buf_field(s, dty)(dty, Ref(s.alloc(args[0])))


def buf_grow(s, args, dty, f):
    return Agg(dty, None, ())


BUF = dict(with_capacity_in=buf_new, with_capacity_zeroed_in=None, new_in=buf_new, grow_one=buf_grow, reserve=buf_grow, deallocate=buf_grow, shrink=buf_grow,
           reserve_exact=buf_grow, grow_amortized=None, capacity=lambda s, a, d, f: ic(2**62))


# formatting
def arg_new(s, args, dty, f):
    m = re.search(r'(?:new|from)_(\w+)$', f['def'])
    ty = f['args'][-1] if f['args'] else None
    return Nat('arg', (m.group(1), args[0], ty))


def arguments_new(s, args, dty, f):
    t = s.resolve(s.rplace(s.refplace(args[0])))
    if t.__class__ is not Agg:
        return NotImplemented
    tpl = bytes(x.p for x in t.f)
    al = []
    if len(args) > 1:
        a = s.resolve(s.rplace(s.refplace(args[1])))
        al = list(a.f)
    return Nat('fmtargs', (tpl, tuple(al)))


def arguments_str(s, args, dty, f):
    a = args[0]
    if a.__class__ is Str:
        return Nat('fmtargs', (a.b, None))
    if a.__class__ is Ref:
        v = s.resolve(s.rplace(s.refplace(a)))
        if v.__class__ is Agg and len(v.f) == 1 and v.f[0].__class__ is Str:
            return Nat('fmtargs', (v.f[0].b, None))
        if v.__class__ is Str:
            return Nat('fmtargs', (v.b, None))
        if v.__class__ is Agg and not v.f:
            return Nat('fmtargs', (b'', None))
    return NotImplemented


def log(s, e):
    v = s.mem.get(('log',), Nat('log', ()))
    s.mem[('log',)] = s.map1(v, lambda x: Nat('log', x.x + (e,)))


def fmt_result(s, dty):
    s.fmtn += 1
    c = bs('fmtok$%d' % s.fmtn)
    t = s.p.types[dty]
    okt = t['v'][0]['f'][0][1]
    ert = t['v'][1]['f'][0][1]
    return IteVal(c, Agg(dty, 0, (Agg(okt, None, ()),)), Agg(dty, 1, (Agg(ert, 0, ()),)))


def text_of(s, a):
    """the text written: a str, a char or a String"""
    v = snapshot(s, a)
    return Str(chr(v.p).encode()) if v.__class__ is Node and v.op == 'ic' else v


def snapshot(s, ref, depth=0):
    """the value shown: references are followed"""
    v = s.resolve(ref)
    while v.__class__ is Ref and depth < 6:
        v = s.resolve(s.rplace(s.refplace(v)))
        depth += 1
    return v


def fmt_recv(s, a):
    """which formatter is written to"""
    r = s.resolve(a)
    if r.__class__ is Ref:
        v = s.resolve(s.rplace(s.refplace(r)))
        if v.__class__ is Nat and v.k == 'fmt':
            return v.x
        if v.__class__ is Ref:
            return fmt_recv(s, v)
    raise Undecided('formatter receiver %r' % (r,))


def fmt_args(s, fa):
    fa = s.resolve(fa)
    if fa.__class__ is not Nat or fa.k != 'fmtargs':
        return None
    tpl, al = fa.x
    out = []
    for a in (al or ()):
        a = s.resolve(a)
        if a.__class__ is not Nat or a.k != 'arg':
            return None
        kind, ref, ty = a.x
        out.append((kind, ty, snapshot(s, ref)))
    return tpl, None if al is None else tuple(out)


def into_string(s, a, add, dty):
    """write to a String: the text is appended and the call succeeds"""
    r = s.resolve(a)
    while r.__class__ is Ref:
        pl = s.refplace(r)
        v = s.resolve(s.rplace(pl))
        if v.__class__ is Nat and v.k == 'string':
            if add is None:
                return True
            s.wgate(pl, Nat('string', v.x + add))
            okt = s.p.types[dty]['v'][0]['f'][0][1]
            return Agg(dty, 0, (Agg(okt, None, ()),))
        r = v
    return None


def write_fmt(s, args, dty, f):
    if into_string(s, args[0], None, dty):
        fa = fmt_args(s, args[1])
        return NotImplemented if fa is None else into_string(s, args[0], (fa,), dty)
    w = fmt_recv(s, args[0])
    fa = fmt_args(s, args[1])
    if fa is None:
        return NotImplemented
    log(s, ('fmt', w, fa[0], fa[1], s.where()))
    return fmt_result(s, dty)


# owned text: what was formatted into it
def str_format(s, args, dty, f):
    fa = fmt_args(s, args[0])
    return NotImplemented if fa is None else Nat('string', (fa,))


def str_owned(s, args, dty, f):
    v = snapshot(s, args[0])
    if v.__class__ is Str:
        return Nat('string', ((v.b, None),))
    if v.__class__ is Nat and v.k == 'string':
        return v
    ty = f['args'][0] if f.get('args') else None
    if not f['def'].endswith('to_string') or ty is None or v.__class__ is IteVal:
        return NotImplemented
    return Nat('string', ((b'\xc0\0', (('display', ty, v),)),))


def str_view(s, args, dty, f):
    v = snapshot(s, args[0])
    return v if v.__class__ is Str or v.__class__ is Nat and v.k == 'string' else NotImplemented


def str_whole(s, args, dty, f):
    r = s.resolve(args[1])
    return str_view(s, args, dty, f) if r.__class__ is Agg and not r.f and 'RangeFull' in str(s.p.tyname(r.ty)) else NotImplemented


def str_new(s, args, dty, f):
    return Nat('string', ())


def str_push(s, args, dty, f):
    r = s.refplace(args[0])
    v, x = s.resolve(s.rplace(r)), text_of(s, args[1])
    if v.__class__ is Nat and v.k == 'string':
        if x.__class__ is Str:
            add = ((x.b, None),)
        elif x.__class__ is Nat and x.k == 'string':
            add = x.x
        else:
            return NotImplemented
        s.wplace(r, Nat('string', v.x + add)) if hasattr(s, 'wplace') else s.wgate(r, Nat('string', v.x + add))
        return Agg(dty, None, ())
    return NotImplemented


def write_str(s, args, dty, f):
    if into_string(s, args[0], None, dty):
        a = text_of(s, args[1])
        add = ((a.b, None),) if a.__class__ is Str else a.x if a.__class__ is Nat and a.k == 'string' else None
        return NotImplemented if add is None else into_string(s, args[0], add, dty)
    w = fmt_recv(s, args[0])
    a = text_of(s, args[1])
    log(s, ('str', w, a, s.where()))
    return fmt_result(s, dty)


def fmt_pad(s, args, dty, f):
    w = fmt_recv(s, args[0])
    log(s, ('pad', w, snapshot(s, args[1]), s.where()))
    return fmt_result(s, dty)


def fmt_debug(s, args, dty, f):
    w = fmt_recv(s, args[0])
    log(s, ('debug', w, f['def'], s.where()))
    return fmt_result(s, dty)


def fmt_prim(s, args, dty, f):
    """Display of a primitive reached directly with the caller's formatter (its options apply)"""
    w = fmt_recv(s, args[1])
    log(s, ('prim', w, f.get('iname') or f['def'], snapshot(s, args[0]), s.where()))
    return fmt_result(s, dty)


def panic(s, args, dty, f):
    s.alarm('panic', s.panic_msg(f.get('iname') or f['def'], args), False)
    return DIVERGED


_cache = {}


def lookup(d, d2, f, fn):
    k = (d, d2)
    if k not in _cache:
        _cache[k] = _lookup(d, d2, f, fn)
    return _cache[k]


def _lookup(d, d2, f, fn):
    for x in (d, d2):
        m = re.search(r'<impl f64>::(\w+)$', x) or re.search(r'f64::math::(\w+)$', x) or re.search(r'cmath::(\w+)$', x) \
            or re.search(r'libm::(?:\w+::)?(\w+)$', x)
        if m:
            h = f_native(m.group(1))
            if h:
                return h
        m = re.match(r'std::intrinsics::(\w+?)(f64)?(::<.*>)?$', x)
        if m:
            n = m.group(1)
            if n in ('sqrt', 'sin', 'cos', 'floor', 'ceil', 'round', 'trunc', 'fabs', 'fma', 'pow', 'powi', 'exp', 'ln', 'log10', 'round_ties_even', 'rint', 'copysign'):
                return f_native(n)
            if INTR.get(n):
                return INTR[n]
            if re.match(r'(maximum|minimum|maxnum|minnum)', n):
                return f_native('max' if n.startswith('max') else 'min')
            if re.match(r'f(add|sub|mul|div|rem)_(fast|algebraic)', n):
                return None
        m = re.match(r"<std::slice::Iter(?:Mut)?<'\w+, T> as std::(?:iter|clone)::\w+>::(\w+)$", x) or \
            re.match(r"<std::array::IntoIter<T, N> as std::iter::\w+>::(\w+)$", x) or \
            re.match(r"std::slice::iter::<impl std::iter::\w+ for std::slice::Iter(?:Mut)?<'\w+, T>>::(\w+)$", x) or \
            re.match(r"std::array::iter::<impl std::iter::\w+ for std::array::IntoIter<T, N>>::(\w+)$", x)
        if m and m.group(1) in IT:
            return IT[m.group(1)]
        m = re.match(r'core::slice::<impl \[T\]>::(\w+)$', x)
        if m and m.group(1) in SL:
            return SL[m.group(1)]
        if re.search(r'SliceIndex<\[T\]>>::index(_mut)?$', x) and 'Range' in x:
            return sidx_range
        if re.match(r'std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next$', x):
            return range_next(False)
        if re.match(r'std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back$', x):
            return range_next(True)
        if re.match(r'(std|core)::array::<impl \[T; N\]>::map$', x):
            return arr_map
        if re.match(r'(std|core)::array::<impl \[T; N\]>::(as_slice|as_mut_slice)$', x):
            return arr_as_slice
        if re.match(r'(std|core)::array::from_fn$', x):
            return arr_from_fn
        if re.search(r'IntoIterator for \[T; N\]>::into_iter$', x) or re.match(r'<\[T; N\] as std::iter::IntoIterator>::into_iter$', x):
            return arr_into_iter
        if re.search(r'for \[T; N\]>::(eq|ne)$', x) or re.match(r'<\[T; N\] as std::cmp::PartialEq.*>::(eq|ne)$', x):
            return arr_eq(x.endswith('ne'))
        if re.search(r'Clone for \[T; N\]>::clone$', x) or re.match(r'<\[T; N\] as std::clone::Clone>::clone$', x):
            return arr_clone
        if re.match(r'(?:alloc|std)::raw_vec::.*do_reserve_and_handle', x):
            return unit
        m = re.match(r'(?:alloc|std)::raw_vec::RawVec(?:Inner::<A>|::<T, A>)::(\w+)$', x)
        if m and BUF.get(m.group(1)):
            return BUF[m.group(1)]
        if re.match(r'std::boxed::Box::<T>::new$', x):
            return box_new
        if x in ('std::mem::replace',):
            return mem_replace
        if x in ('std::mem::swap',):
            return mem_swap
        if x == 'std::mem::forget':
            return unit
        if x in ('std::ptr::read', 'std::ptr::read_unaligned') or re.match(r'std::ptr::(const|mut)_ptr::<impl \*(const|mut) T>::read$', x):
            return ptr_read
        if x == 'std::ptr::write' or re.match(r'std::ptr::mut_ptr::<impl \*mut T>::write$', x):
            return ptr_write
        if x in ('std::hint::black_box', 'std::convert::identity'):
            return ident
        if re.match(r'std::hint::select_unpredictable(::<.*>)?$', x):
            return select
        m = re.match(r'(?:<\w+ as )?std::cmp::(?:Ord>?::)?(max|min)(::<\w+>)?$', x) or re.match(r'std::cmp::impls::<impl std::cmp::Ord for \w+>::(max|min)$', x)
        if m:
            return int_ext(m.group(1) == 'max')
        if x in ('std::hint::cold_path',):
            return unit
        if re.match(r"core::fmt::rt::Argument::<'_>::(new_\w+|from_usize)$", x):
            return arg_new
        if re.match(r"std::fmt::Arguments::<'a>::new$", x) or re.match(r"(std|core)::fmt::rt::.*Arguments::<'a>::new(_v1\w*)?$", x):
            return arguments_new
        if re.match(r"std::fmt::Arguments::<'a>::(from_str|new_const|from_str_nonconst)$", x) or re.match(r"core::fmt::rt::<impl std::fmt::Arguments<'_>>::new_const$", x):
            return arguments_str
        if re.match(r"(<std::fmt::Formatter<'_> as std::fmt::Write>|<std::string::String as std::fmt::Write>|std::fmt::Formatter::<'a>|std::fmt::Write)::write_fmt$", x):
            return write_fmt
        if re.match(r"(<std::fmt::Formatter<'_> as std::fmt::Write>|<std::string::String as std::fmt::Write>|std::fmt::Formatter::<'a>|std::fmt::Write)::write_str$", x):
            return write_str
        if re.match(r"(<std::fmt::Formatter<'_> as std::fmt::Write>|<std::string::String as std::fmt::Write>|std::fmt::Write)::write_char$", x):
            return write_str
        if re.match(r"std::fmt::Formatter::<'a>::pad$", x):
            return fmt_pad
        if re.match(r"std::fmt::Formatter::<'a>::debug_", x):
            return fmt_debug
        if re.match(r'(std|alloc)::fmt::format$', x):
            return str_format
        if re.match(r'(<.* as std::string::ToString>|std::string::ToString)::to_string$', x) or \
                re.match(r'(std|alloc)::str::<impl std::borrow::ToOwned for str>::to_owned$', x) or re.match(r'<str as std::borrow::ToOwned>::to_owned$', x) or \
                re.match(r'<std::string::String as std::convert::From<&(\'\w+ )?str>>::from$', x) or re.match(r'<std::string::String as std::clone::Clone>::clone$', x):
            return str_owned
        if re.match(r'<std::string::String as std::(ops::Deref|convert::AsRef<str>|borrow::Borrow<str>)>::\w+$', x) or re.match(r'std::string::String::as_str$', x):
            return str_view
        if re.match(r'<std::string::String as std::ops::Index<.*>>::index$', x):
            return str_whole
        if re.match(r'std::string::String::new$', x):
            return str_new
        if re.match(r'std::string::String::push(_str)?$', x):
            return str_push
        if x == 'std::fmt::write':
            return write_fmt
        if re.search(r'(core::|std::)?panicking::|panic_|begin_panic|unwrap_failed|expect_failed|slice_index_fail|slice_\w+_index_\w*fail|len_mismatch_fail|panic_const', x) \
                and 'precondition' not in x:
            return panic
    if fn is not None and not fn.get('local') and 'body' not in fn:
        m = re.match(r'(<[\w&]+ as std::fmt::(\w+)>|std::fmt::\w+::(imp|num)::.*)::fmt$', d2) or re.match(r'std::fmt::.*<impl std::fmt::\w+ for .*>::fmt$', d2)
        if m:
            return fmt_prim
    return None
