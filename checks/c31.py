"""C31: the command-line tools: every option reaches its quantity, defaults, errors and the text printed."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from chk import *  # noqa
import natives
import text
from natives import Nat
from text import Opt

J, SA = 'julian_tool.bin', 'sun_angle_tool.bin'
F6 = Opt(prec=6)
INF = float('inf')
CAL = {'new': 'tofas::calendar::GregorianDate::new', 'from': 'tofas::calendar::GregorianDate::from_julian', 'hms': 'tofas::calendar::HMS::from_fraction_of_day'}


text.WHOLE = ('tofas::', 'tofas_extras::')


class Tool:
    """the main function of a tool with the command line left open: which options are given, which are malformed, and every value"""

    def __init__(self, c, prog, bad=(), given=None, values=None, flags=None, extra=False, sub=None, fail=(), cut=None):
        self.c, self.prog, self.p = c, prog, c.prog(prog)
        self.bad, self.given, self.values, self.flags, self.extra, self.sub, self.fail, self.cut = bad, given, values or {}, flags or {}, extra, sub, fail, cut
        self.read, self.args, self.n = {}, {}, 0
        self.s = Interp(self.p, opaque=self.hook)

    def ok(self, dty, v):
        return Agg(dty, 0, (v,))

    def err(self, dty, what):
        return Agg(dty, 1, (Nat('opaque', what),))

    def inner(self, dty):
        return self.p.types[dty]['v'][0]['f'][0][1]

    def key(self, v):
        v = self.s.resolve(v)
        while v.__class__ is Ref:
            v = self.s.resolve(self.s.read(v.root, v.path))
        if v.__class__ is not Str:
            raise Undecided('name of an option')
        return v.b.decode()

    def value(self, k, ty):
        self.read[k] = self.read.get(k, 0) + 1
        if k not in self.values:
            t = self.p.types[ty]
            self.values[k] = N.fs(k, -INF, INF, True) if t['k'] == 'float' else N.isym(k, *self.p.rng(ty))
        return self.values[k]

    def present(self, k):
        if self.given is None:
            return N.bs('given ' + k)
        return N.bc(k in self.given)

    def hook(self, key, fn):
        x = str(key)
        if x.startswith('pico_args::Arguments::'):
            m = re.match(r'pico_args::Arguments::(\w+)', x).group(1)
            return getattr(self, 'a_' + m, None)
        if x.startswith('anyhow::__private::not'):
            return lambda s, key, args, dty: N.bnot(natives.snapshot(s, args[0]))
        if re.search(r'convert::From<.*for anyhow::Error>::from$', x) or re.match(r'anyhow::(__private|error::<impl anyhow::Error>|Error)::\w+', x):
            return lambda s, key, args, dty: Nat('opaque', 'error')
        if re.search(r'as std::string::ToString>::to_string$|^std::fmt::format$|^alloc::fmt::format$', x):
            return lambda s, key, args, dty: self.string(s, args, dty, fn)
        if re.match(r'anyhow::context::<impl anyhow::Context<.*> for .*>::(with_)?context', x):
            return self.context
        if 'drop_glue::<pico_args' in x or 'drop_glue::<anyhow' in x or 'drop_glue::<std::vec::Vec<std::ffi::OsString' in x:
            return lambda s, key, args, dty: Agg(dty, None, ())
        if re.search(r'PartialEq(<.*>)? for (str|std::string::String|&str)>::(eq|ne)$', x) or re.match(r"<(std::string::String|str|&str|&std::string::String) as std::cmp::PartialEq(<&?(str|std::string::String)>)?>::(eq|ne)$", x):
            return self.streq
        if x == 'std::io::_print':
            return self.print
        if re.match(r'std::vec::Vec::<(std::ffi::)?(os_str::)?OsString.*>::is_empty$', x) or re.match(r'core::slice::.*OsString.*::is_empty$', x):
            return lambda s, key, args, dty: N.bc(not self.extra)
        if re.match(r'std::vec::Vec::<(std::ffi::)?(os_str::)?OsString.*>::len$', x) or re.match(r'core::slice::.*OsString.*::len$', x):
            return lambda s, key, args, dty: N.isym('extra arguments', 1, 1 << 32) if self.extra else N.ic(0)
        for k, f in CAL.items():
            if x == f:
                return lambda s, key, args, dty, k=k: self.calendar(k, key, args, dty)
        if x.endswith('SunAngleCalculator::new'):
            return self.calculator
        if x.endswith('SunAngleCalculator::compute'):
            return self.compute

    def string(self, s, args, dty, fn):
        make = natives.str_owned if fn['def'].endswith('to_string') else natives.str_format
        r = make(s, args, dty, fn)
        if r is NotImplemented:
            raise Undecided('text made of a value')
        return Nat('string', tuple((t, None if al is None else tuple((k, ty, self.deep(v)) for k, ty, v in al)) for t, al in r.x))

    def context(self, s, key, args, dty):
        option = 'Option' in self.p.tyname(s.resolve(args[0]).ty) if s.resolve(args[0]).__class__ is Agg else 'for std::option::Option' in str(key)
        return s.map1(s.resolve(args[0]), lambda a: Agg(dty, 0, a.f) if a.v == int(option) else Agg(dty, 1, (Nat('opaque', 'error'),)))

    def literal(self, v):
        while v.__class__ is Ref:
            v = natives.snapshot(self.s, v)
        if v.__class__ is Str:
            return v.b
        if v.__class__ is Nat and v.k == 'string' and all(a is None for _, a in v.x):
            return b''.join(x for x, _ in v.x)
        raise Undecided('comparison of texts')

    def streq(self, s, key, args, dty):
        return N.bc((self.literal(args[0]) == self.literal(args[1])) == str(key).endswith('eq'))

    # -- the argument reader
    def a_from_env(self, s, key, args, dty):
        return Nat('opaque', 'arguments')

    def a_value_from_str(self, s, key, args, dty):
        k = self.key(args[1])
        if k in self.bad:
            return self.err(dty, k)
        return self.ok(dty, self.value(k, self.inner(dty)))

    def a_opt_value_from_str(self, s, key, args, dty):
        k = self.key(args[1])
        if k in self.bad:
            return self.err(dty, k)
        ot = self.inner(dty)
        v = self.value(k, self.p.types[ot]['v'][1]['f'][0][1])
        some, none = Agg(ot, 1, (v,)), Agg(ot, 0, ())
        g = self.present(k)
        return self.ok(dty, some if g is N.bc(True) else none if g is N.bc(False) else IteVal(g, some, none))

    def a_contains(self, s, key, args, dty):
        k = self.key(args[1])
        self.read[k] = self.read.get(k, 0) + 1
        return N.bc(bool(self.flags.get(k)))

    def a_finish(self, s, key, args, dty):
        self.read['finish'] = 1
        return Nat('opaque', 'rest')

    def a_subcommand(self, s, key, args, dty):
        if self.sub == 'malformed':
            return self.err(dty, 'subcommand')
        ot = self.inner(dty)
        return self.ok(dty, Agg(ot, 0, ()) if self.sub is None else Agg(ot, 1, (Nat('string', ((self.sub.encode(), None),)),)))

    # -- the library: decided elsewhere
    def calendar(self, k, key, args, dty):
        self.args[k] = args
        if k in self.fail:
            return Agg(dty, 1, (Agg(self.p.types[dty]['v'][1]['f'][0][1], 0, ()),))
        ls = []
        for a in args:
            self.s.leaves(a, ls)
        return self.ok(dty, self.s.opaque_val(k, tuple(ls), self.inner(dty), ''))

    def calculator(self, s, key, args, dty):
        self.args['new'] = natives.snapshot(s, args[0])
        ls = s.leaves(self.args['new'])
        return s.opaque_val('calculator', tuple(ls), dty, '')

    def compute(self, s, key, args, dty):
        self.n += 1
        if self.cut is not None and self.n > self.cut:
            return DIVERGED
        return s.opaque_val('compute', tuple(s.leaves(args[0]) + s.leaves(args[1])), dty, '')

    def print(self, s, key, args, dty):
        fa = natives.fmt_args(s, args[0])
        if fa is None:
            raise Undecided('text printed')
        # what is shown now: the values behind references may change or end later
        al = None if fa[1] is None else tuple((k, ty, self.deep(v)) for k, ty, v in fa[1])
        natives.log(s, ('fmt', 'arg1', fa[0], al, s.where()))
        return Agg(dty, None, ())

    def deep(self, v, n=0):
        v = natives.snapshot(self.s, v)
        if v.__class__ is Agg and n < 8:
            return Agg(v.ty, v.v, tuple(self.deep(x, n + 1) for x in v.f))
        return v

    # -- the run
    def run(self):
        main_ = next(k for k in self.p.fns if re.match(r'\w+::main$', k))
        self.main = main_
        r = call(self.c, main_, prog=self.prog, s=self.s)
        self.res = set()

        def go(v):
            v = self.s.resolve(v)
            if v.__class__ is IteVal:
                go(v.a)
                go(v.b)
            elif v.__class__ is Agg:
                self.res.add(v.v)
            else:
                raise Undecided('result of main')
        if r is not DIVERGED:
            go(r)
        self.texts = text.texts_of(self.c, self.p, self.prog, self.s.mem.get(('log',), Nat('log', ())))
        return self

    def where(self):
        return self.c.where(self.main, self.prog)


def opt(t, k, default):
    """the value of an option that may be left out"""
    v = t.values[k]
    d = default if isinstance(default, N.Node) else N.fc(default) if isinstance(default, float) else N.ic(default)
    if t.given is not None:
        return v if k in t.given else d
    return (N.fite if isinstance(default, float) else N.iite)(N.bs('given ' + k), v, d)


def ends(c, name, t, ok, prints=None):
    """how a run ends: with success or an error, and without printing a result if so asked"""
    t.run()
    c.ob(name, t.res == {0 if ok else 1}, 'ends with %s' % ('an error' if 1 in t.res else 'success' if t.res else 'a panic'), t.where())
    if prints is not None:
        for x in t.texts:
            shown = b''.join(y for y in x if isinstance(y, bytes))
            c.ob(name + ': shows no result', not any(w in shown if w else x for w in prints), 'prints %s' % text.show(x), t.where())


def same(c, name, a, b, where):
    c.ob(name, scalars(a) == scalars(b), 'another value', where)


REQ = {'gregorian': ['--year', '--month', '--day'], 'julian': ['--jd']}
OPTS = {'gregorian': ['--hour', '--minute', '--second'], 'julian': ['--jd2']}
RESULTS = {'gregorian': [b'date', b'Date'], 'julian': [b'Gregorian', b'Fraction', b'Time']}


def julian(c):
    p = c.prog(J)
    for name, subs in (('gregorian', ('gregorian', 'g')), ('julian', ('julian', 'j'))):
        for sub in subs:
            def run(name=name, sub=sub):
                A = Alg()
                t = Tool(c, J, sub=sub).run()
                c.ob('julian_tool %s succeeds' % sub, t.res == {0}, 'may end with an error', t.where())
                c.ob('julian_tool %s: options' % sub, {k for k in t.read if k != 'finish'} == set(REQ[name] + OPTS[name]), 'reads %s' % sorted(t.read), t.where())
                v = t.values
                X_ = lambda n: X(A, A.nf(n))
                if name == 'gregorian':
                    same(c, 'julian_tool %s: date' % sub, Agg(0, 0, tuple(t.args['new'])), Agg(0, 0, tuple(v[k] for k in REQ[name])), t.where())
                    date = t.s.opaque_val('new', tuple(v[k] for k in REQ[name]), next(i for i, x in p.types.items() if x['k'] == 'adt' and x['name'] == 'tofas::calendar::GregorianDate'), '')
                    h, m, s = opt(t, '--hour', 12), opt(t, '--minute', 0), opt(t, '--second', 0.0)
                    hty = next(i for i, x in p.types.items() if x['k'] == 'adt' and x['name'] == 'tofas::calendar::HMS')
                    hms = Agg(hty, 0, (h, m, s))
                    s2 = Interp(p)
                    fd = s2.run('tofas::calendar::HMS::to_fraction_of_day', [Ref(s2.alloc(hms))])
                    jd = s2.run('tofas::calendar::GregorianDate::to_julian', [Ref(s2.alloc(date))])
                    a, b = [X_(x) for _, x in scalars(jd)]
                    want = [b'Gregorian date: ', (date, Opt(), False), b'\nTime: ', (hms, Opt(), False), b'\nJulian date: ', (a + b + X_(fd), F6, False),
                            b'\nFraction of day: ', (X_(fd), F6, False), b'\n']
                else:
                    jd2 = opt(t, '--jd2', 0.0)
                    j = (v['--jd'], jd2)
                    same(c, 'julian_tool %s: Julian date' % sub, Agg(0, 0, tuple(t.args['from'])), Agg(0, 0, j), t.where())
                    pair = t.s.opaque_val('from', j, next(t.inner(b['body']['locals'][0]) for k, b in p.fns.items() if k == CAL['from']), '')
                    date, fod = pair.f
                    hms = t.s.opaque_val('hms', (fod,), next(t.inner(b['body']['locals'][0]) for k, b in p.fns.items() if k == CAL['hms']), '')
                    want = [b'Julian date: ', (X_(j[0]) + X_(j[1]), Opt(width=18, prec=14), False), b'\nGregorian date: ', (date, Opt(), False),
                            b'\nFraction of day: ', (fod, Opt(), False), b'\nTime: ', (hms, Opt(), False), b'\n']
                for got in t.texts:
                    text.expect(c, 'julian_tool %s: text' % sub, A, got, want, t.where(), loose=True)
            c.attempt('julian_tool ' + sub, None, run)
        for k in REQ[name] + OPTS[name]:
            c.attempt('%s malformed' % k, None, lambda: ends(c, 'julian_tool %s: %s missing or malformed' % (name, k), Tool(c, J, sub=name, bad=(k,)), False, RESULTS[name]))
        for k in {'gregorian': ['new'], 'julian': ['from', 'hms']}[name]:
            c.attempt('impossible', None, lambda: ends(c, 'julian_tool %s: impossible date (%s)' % (name, k), Tool(c, J, sub=name, fail=(k,)), False, [b'Time']))
    for n in RESULTS:
        c.attempt('extra', None, lambda: ends(c, 'julian_tool %s: extra arguments' % n, Tool(c, J, sub=n, extra=True), False, RESULTS[n]))
    for sub in (None, 'malformed', '', 'x', 'date', 'gregor', 'J'):
        c.attempt('subcommand', None, lambda: ends(c, 'julian_tool: subcommand %s' % sub, Tool(c, J, sub=sub), False, [b'']))


INT = {'--year': 2007, '--month': 4, '--day': 5, '--hour': 0, '--min': 0}
FLT = {'--sec': 0.0, '--lat': 0.0, '--lon': -120.0, '--height': 0.0}
SCAN = {'--delta0': -600.0, '--delta1': 600.0, '--delta_step': 60.0}


def checked(c, name, t, deltas):
    """the texts of a run that reports at the given offsets"""
    p = c.prog(SA)
    A = Alg()
    par = t.args['new']
    o = lambda k, d: opt(t, k, d)
    date = t.s.opaque_val('new', tuple(o(k, INT[k]) for k in ('--year', '--month', '--day')), next(i for i, x in p.types.items() if x['k'] == 'adt' and x['name'] == 'tofas::calendar::GregorianDate'), '')
    same(c, name + ': date', get(p, par, 'date'), date, t.where())
    for f, k in (('time.hour', '--hour'), ('time.minute', '--min'), ('time.second', '--sec'), ('position.lat', '--lat'), ('position.lon', '--lon'), ('position.height', '--height')):
        same(c, '%s: %s' % (name, k), get(p, par, f), o(k, INT.get(k, FLT.get(k))), t.where())
    cty = next(b['body']['locals'][0] for k, b in p.fns.items() if k.endswith('SunAngleCalculator::new'))
    rty = next(b['body']['locals'][0] for k, b in p.fns.items() if k.endswith('SunAngleCalculator::compute'))
    calc = tuple(t.s.leaves(t.s.opaque_val('calculator', tuple(t.s.leaves(par)), cty, '')))
    scan = t.flags.get('--scan')
    want = []
    if scan:
        w = Opt(flags='+', width=13, prec=6)
        want += [b'Will scan from ', (o('--delta0', -600.0), w, False), b's to ', (o('--delta1', 600.0), w, False), b's in steps of ',
                 (o('--delta_step', 60.0), Opt(width=13, prec=6), False), b'\n']
    for d in deltas:
        if scan:
            want.append(b'\n')
        want.append((par, t.s.opaque_val('compute', calc + (d,), rty, '')))
    join = []
    for x in want:
        if isinstance(x, bytes) and join and isinstance(join[-1], bytes):
            join[-1] += x
        else:
            join.append(x)
    for got in t.texts:
        if not c_len(c, name, got, join, t):
            continue
        for g, w in zip(got, join):
            if isinstance(w, tuple) and len(w) == 2:
                if isinstance(g, bytes) or g[0] != 'display' or g[2].__class__ is not Agg or 'SunAngleResultBundle' not in g[1]:
                    c.ob(name + ': report', False, 'shows %s' % text.show([g]), t.where())
                    continue
                b = g[2].f
                names = fieldnames(p, g[2])
                bp, br = b[names.index('parameters')], b[names.index('result')]
                same(c, name + ': parameters shown', bp, w[0], t.where())
                same(c, name + ': result shown', br, w[1], t.where())
            else:
                text.expect(c, name + ': text', A, [g], [w], t.where(), loose=True)


def c_len(c, name, got, want, t):
    return c.ob(name + ': reports', len(got) == len(want), 'prints %d pieces, %d expected: %s' % (len(got), len(want), text.show(got)), t.where()) or len(got) == len(want)


def sun(c):
    every = list(INT) + list(FLT) + list(SCAN)
    step = lambda a, b: N.f2('fadd', a, b)

    def at(lo, hi, name):
        return N.fs(name, lo, hi, False)

    def one():
        t = Tool(c, SA, values={'--delta0': at(0.0, 1e9, '--delta0'), '--delta1': at(2e9, 3e9, '--delta1')}, given=set(every)).run()
        c.ob('sun_angle_tool succeeds', t.res == {0}, 'may end with an error', t.where())
        c.ob('sun_angle_tool: options', set(t.read) == set(every) | {'--scan', 'finish'}, 'reads %s' % sorted(t.read), t.where())
        checked(c, 'sun_angle_tool', t, [t.values['--delta0']])
    c.attempt('sun_angle_tool', None, one)
    for k in every:
        def left(k=k):
            v = {'--delta0': at(0.0, 1e2, '--delta0'), '--delta1': at(2e2, 3e3, '--delta1')}
            t = Tool(c, SA, values=v, given=set(every) - {k}).run()
            checked(c, 'sun_angle_tool without ' + k, t, [opt(t, '--delta0', -600.0)])
        c.attempt('without ' + k, None, left)
        c.attempt(k + ' malformed', None, lambda: ends(c, 'sun_angle_tool: %s malformed' % k, Tool(c, SA, bad=(k,)), False, [b'']))
    c.attempt('extra', None, lambda: ends(c, 'sun_angle_tool: extra arguments', Tool(c, SA, extra=True), False, [b'']))
    c.attempt('impossible', None, lambda: ends(c, 'sun_angle_tool: impossible date', Tool(c, SA, fail=('new',)), False, [b'']))

    for what, v in (('zero or below', N.fs('--delta_step', -INF, 0.0, False)), ('not a number', N.fc(float('nan'))), ('zero', N.fc(0.0))):
        c.attempt('step', None, lambda: ends(c, 'sun_angle_tool --scan: step ' + what, Tool(c, SA, values={'--delta_step': v}, given=set(every), flags={'--scan': True}, cut=3), False, [b'']))

    def plain():
        t = Tool(c, SA, given=set()).run()
        checked(c, 'sun_angle_tool without options', t, [N.fc(-600.0)])

    def scanned():
        t = Tool(c, SA, given=set(), flags={'--scan': True}).run()
        checked(c, 'sun_angle_tool --scan', t, [N.fc(-600.0 + 60.0 * i) for i in range(21)])
    c.attempt('plain', None, plain)
    c.attempt('scan', None, scanned)
    for n in range(5):
        for exact in (False, True):
            for scan in (False, True):
                if n == 0 and exact:
                    continue

                def some(n=n, exact=exact, scan=scan):
                    d0 = at(-100.0, -99.0, '--delta0')
                    st = at(1e4, 1.01e4, '--delta_step')
                    l = [d0]
                    for _ in range(n):
                        l.append(step(l[-1], st))
                    d1 = l[n - 1] if exact else at(1.005e4 * n - 1e4 + 3e3, 1.005e4 * n - 1e4 + 4e3, '--delta1')
                    t = Tool(c, SA, given=set(every), values={'--delta0': d0, '--delta1': d1, '--delta_step': st}, flags={'--scan': scan}).run()
                    checked(c, 'sun_angle_tool%s, %s %d steps' % (' --scan' if scan else '', 'exactly' if exact else 'room for', n), t, l[:n if scan else min(n, 1)])
                c.attempt('steps', None, some)


def body(c):
    julian(c)
    sun(c)
    c.notes['rule'] = 'which option reaches which quantity, for every value; which runs end with an error; what is printed, in order and format'


if __name__ == '__main__':
    main('C31', body, floor=150)
