"""C07: the five time scales are distinct types; queries over impls and signatures, and compile-fail witnesses."""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import witness
from chk import *  # noqa

SC = ['UT1', 'TT', 'TAI', 'UTC', 'TDB']
T = 'tofas::time::'
CONV = ('convert::From', 'convert::Into', 'convert::TryFrom', 'convert::TryInto', 'convert::AsRef', 'convert::AsMut', 'borrow::Borrow', 'borrow::BorrowMut',
        'ops::Deref', 'ops::DerefMut', 'ops::', 'cmp::PartialEq', 'cmp::PartialOrd', 'iter::Sum', 'iter::Product', 'str::FromStr', 'borrow::ToOwned')
REJECT = {'E0308', 'E0277', 'E0369', 'E0605', 'E0606', 'E0614', 'E0061', 'E0599', 'E0600', 'E0282', 'E0283'}
# module prefix -> the scales its routines take
MODULES = {'tofas::frames::': {'TT', 'UT1'}, 'tofas::locator::': {'TT'}, 'tofas::earth::rotation_angle': {'UT1'}, 'tofas::earth::': {'TDB', 'UT1'}}
# routine -> call with `$` for each date argument, scales of the dates
ROUTINES = [
    ('tofas::earth::rotation_angle', 'tofas::earth::rotation_angle($)', ['UT1']),
    ('<tofas::earth::EarthPosVel as std::convert::From<tofas::time::TDB>>::from', 'tofas::earth::EarthPosVel::from($)', ['TDB']),
    ('tofas::frames::celestial_to_terrestrial', 'tofas::frames::celestial_to_terrestrial($,$,0.0,0.0)', ['TT', 'UT1']),
    ('tofas::frames::celestial_to_intermediate', 'tofas::frames::celestial_to_intermediate($)', ['TT']),
    ('tofas::frames::precession_nutation', 'tofas::frames::precession_nutation($)', ['TT']),
    ('<tofas::frames::PrecessionNutation as std::convert::From<tofas::time::TT>>::from', 'tofas::frames::PrecessionNutation::from($)', ['TT']),
    ('tofas::frames::PrecessionNutation::from_tt_with_nutation', 'tofas::frames::PrecessionNutation::from_tt_with_nutation($,0.0,0.0)', ['TT']),
    ('tofas::frames::nutation', 'tofas::frames::nutation($)', ['TT']),
    ('tofas::frames::precession_rate', 'tofas::frames::precession_rate($)', ['TT']),
    ('tofas::frames::mean_obliquity', 'tofas::frames::mean_obliquity($)', ['TT']),
    ('tofas::frames::bias_and_precession', 'tofas::frames::bias_and_precession($)', ['TT']),
    ('tofas::frames::celestial_to_intermediate_with_bpn', 'tofas::frames::celestial_to_intermediate_with_bpn($,&[[0.0;3];3])', ['TT']),
    ('tofas::frames::celestial_to_intermediate_with_bpn_and_xy', 'tofas::frames::celestial_to_intermediate_with_bpn_and_xy($,0.0,0.0)', ['TT']),
    ('tofas::locator::cio', 'tofas::locator::cio($,0.0,0.0)', ['TT']),
    ('tofas::time::TT::from_ut1', 'TT::from_ut1($,0.0)', ['UT1']),
    ('tofas::time::UT1::from_tt', 'UT1::from_tt($,0.0)', ['TT']),
    ('tofas::time::TDB::from_tt', 'TDB::from_tt($,0.0)', ['TT']),
    ('tofas::time::TAI::from_utc_delta_at', 'TAI::from_utc_delta_at($,0.0)', ['UTC']),
    ('<tofas::time::TT as std::convert::From<tofas::time::TAI>>::from', 'TT::from($)', ['TAI']),
]
NOOFF = [('TT::from_ut1($)', 'UT1'), ('UT1::from_tt($)', 'TT'), ('TDB::from_tt($)', 'TT'), ('TAI::from_utc_delta_at($)', 'UTC')]


def body(c):
    p = c.prog()
    d = p.d
    scale = {T + s: s for s in SC}
    tys = {}
    for i, t in p.types.items():
        if t['k'] == 'adt' and t['name'] in scale:
            tys[i] = scale[t['name']]
    found = sorted(set(tys.values()))
    adts = {a['name']: a for a in d['adts']}
    for s in SC:
        a = adts.get(T + s)
        c.ob('%s is a type of its own' % s, a is not None and s in found, 'tofas::time::%s is not a struct defined there' % s, 'crates/tofas/src/time.rs')
    for s in SC:
        t = next((t for t in p.types.values() if t['k'] == 'adt' and t['name'] == T + s), None)
        inner = {tys.get(x) for v in (t or {}).get('v', []) for _, x in v['f']} - {None}
        c.ob('%s does not wrap another scale' % s, t is not None and not inner, 'field of type %s' % sorted(inner), 'crates/tofas/src/time.rs')

    def scales(prog, i, seen=None):
        """time scales occurring in a type"""
        P = c.prog(prog)
        seen = seen if seen is not None else set()
        if i in seen:
            return set()
        seen.add(i)
        t = P.types[i]
        if t['k'] == 'adt' and t['name'] in scale:
            return {scale[t['name']]}
        out = set()
        for x in [t.get('e')] + list(t.get('f') or []) + list(t.get('args') or []):
            if isinstance(x, int) and x in P.types:
                out |= scales(prog, x, seen)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    if isinstance(y, int) and y in P.types:
                        out |= scales(prog, y, seen)
        return out

    def bare(s):
        return s.startswith('(f64') or s in ('f64',) or s.startswith('[f64')
    nimpl = nsig = 0
    for prog in ('tofas.lib', 'tofas_extras.lib'):
        P = c.prog(prog)
        for im in P.d['impls']:
            head = set()
            for x in [im['self']] + im['args']:
                if x is not None and x in P.types:
                    head |= scales(prog, x)
            texts = im['args_s'] + [im['self_s']]
            for s in SC:
                if any('time::' + s in x for x in texts):
                    head.add(s)
            if not head:
                # a blanket impl of a conversion or operator covers the scales too
                if P.types.get(im['self'], {}).get('k') == 'other':
                    nimpl += 1
                    c.ob('blanket impl of %s' % im['trait'], not any(x in im['trait'] for x in CONV), 'covers every time scale', '%s' % (im['span'],))
                continue
            nimpl += 1
            tr = im['trait']
            where = '%s:%s' % tuple(im['span'])
            nm = 'impl %s for %s (%s)' % (tr, im['self_s'], ', '.join(im['args_s'][1:]))
            ok = True
            if any(x in tr for x in CONV):
                others = [x for x in im['args_s'][1:]]
                generic = any(P.types.get(x, {}).get('k') == 'other' for x in im['args'])
                if len(head) > 1:
                    ok = tr.endswith('convert::From') and im['self_s'].endswith('TT') and im['args_s'][-1].endswith('TAI') and head == {'TT', 'TAI'} or \
                        tr.endswith('convert::Into') and im['self_s'].endswith('TAI') and im['args_s'][-1].endswith('TT') and head == {'TT', 'TAI'}
                elif generic or 'Deref' in tr or 'Borrow' in tr or any(bare(x.lstrip('&')) for x in others + [im['self_s']]):
                    ok = False
            c.ob(nm, ok, 'mixes time scales or makes a bare number of one', where)
        for it in P.d['items']:
            if not it.get('sig') or it['kind'] != 'Fn' or not it['reach']:      # helpers of the crate are no client's business
                continue
            io = it['sig']['io']
            ins = [scales(prog, x) for x in io[:-1]]
            out = scales(prog, io[-1])
            allin = set().union(*ins) if ins else set()
            if not allin and not out:
                continue
            nsig += 1
            nm = it['name']
            # a change of scale needs an explicit offset, except TAI to TT
            new = out - allin
            if allin and new and prog == 'tofas.lib':
                off = any(P.types[x]['k'] == 'float' for x in io[:-1])
                c.ob('offset of ' + nm, off or (allin == {'TAI'} and new == {'TT'}), 'goes from %s to %s without an offset' % (sorted(allin), sorted(new)),
                     '%s:%s' % tuple(it['span']))
            for m, allowed in MODULES.items():
                if nm.startswith(m) or nm.startswith('<' + m):
                    c.ob('dates taken by ' + nm, allin <= allowed, 'takes %s, only %s expected' % (sorted(allin), sorted(allowed)), '%s:%s' % tuple(it['span']))
                    break
    c.notes['impls_inspected'] = nimpl
    c.notes['signatures_inspected'] = nsig
    keys = {it['key']: it for it in d['items'] if it.get('key')}
    for key, _, want in ROUTINES:
        it = keys.get(key)
        if it is None or not it.get('sig'):
            c.ob('signature of ' + key, False, 'no such public function', key)
            continue
        got = [sorted(scales('tofas.lib', x)) for x in it['sig']['io'][:-1]]
        got = [x for x in got if x]
        gen = [x for x in it['sig']['io'][:-1] if p.types[x]['k'] in ('other', 'dyn')]
        c.ob('signature of ' + key, got == [[w] for w in want] and not gen, 'takes dates %s, %s expected' % (got, want), '%s:%s' % tuple(it['span']))
    c.attempt('witnesses', None, lambda: witnesses(c))


HEAD = 'use tofas::time::{UT1,TT,TAI,UTC,TDB};'


def witnesses(c):
    """every function of the bad file must be rejected with a type error, every function of the good file must compile"""
    good, bad = [], []

    def w(l, name, code):
        l.append((name, code))
    for a in SC:
        for b in SC:
            (w)(good if a == b or (a, b) == ('TAI', 'TT') else bad, 'into %s to %s' % (a, b), '(a:%s)->%s{a.into()}' % (a, b))
            w(good if a == b else bad, 'assign %s to %s' % (a, b), '(a:%s)->%s{a}' % (a, b))
            if a != b:
                for op in ('==', '<'):
                    w(bad, '%s %s %s' % (a, op, b), '(a:%s,b:%s)->bool{a%sb}' % (a, b, op))
                for op in '+-':
                    w(bad, '%s %s %s' % (a, op, b), '(a:%s,b:%s){let _=a%sb;}' % (a, b, op))
                w(bad, 'wrap %s in %s' % (a, b), '(a:%s)->%s{%s(a)}' % (a, b, b))
                w(bad, 'cast %s as %s' % (a, b), '(a:%s){let _=a as %s;}' % (a, b))
                w(bad, 'reference %s as %s' % (a, b), "(a:&%s)->&%s{a}" % (a, b))
                w(bad, 'as_ref %s %s' % (a, b), '<\'x>(a:&\'x %s)->&\'x %s where %s:Sized {a.as_ref()}' % (a, b, a))
        w(good, 'explicit pair of ' + a, '(a:%s)->(f64,f64){a.0}' % a)
        w(good, 'explicit construction of ' + a, '(a:(f64,f64))->%s{%s(a)}' % (a, a))
        w(bad, a + ' into pair', '(a:%s)->(f64,f64){a.into()}' % a)
        w(bad, a + ' from pair', '(a:(f64,f64))->%s{a.into()}' % a)
        w(bad, a + ' is not a pair', '(a:%s)->(f64,f64){a}' % a)
        w(bad, a + ' dereference', '(a:%s)->(f64,f64){*a}' % a)
        w(bad, a + ' pair by reference', '(a:&%s)->&(f64,f64){a}' % a)
        w(bad, a + ' from number', '(a:f64)->%s{a.into()}' % a)
        w(bad, a + ' into number', '(a:%s)->f64{a.into()}' % a)
        w(bad, a + ' compared with pair', '(a:%s,b:(f64,f64))->bool{a==b}' % a)
    for _, expr, want in ROUTINES:
        parts = expr.split('$')

        def call_(args):
            r = parts[0]
            for x, y in zip(args, parts[1:]):
                r += x + y
            return r
        vs = ['a', 'b'][:len(want)]
        sig = lambda l: ','.join('%s:%s' % x for x in zip(vs, l))
        w(good, call_(want), '(%s){let _=%s;}' % (sig(want), call_(vs)))
        for i in range(len(want)):
            for s in SC + ['(f64,f64)', 'f64']:
                if s != want[i] and not (expr.startswith('TT::from($)') and s == 'TT'):
                    l = want[:i] + [s] + want[i + 1:]
                    w(bad, call_(l), '(%s){let _=%s;}' % (sig(l), call_(vs)))
    for expr, s in NOOFF:
        w(bad, expr.replace('$', s), '(a:%s){let _=%s;}' % (s, expr.replace('$', 'a')))

    rc, errs, text = witness.compile(c, good, 'good', HEAD)
    for i, (name, code) in enumerate(good):
        c.ob('compiles: ' + name, not errs.get(i), 'rejected: %s' % errs.get(i), 'program: fn w%s' % code)
    c.ob('good witnesses compile', rc == 0, 'rustc: ' + text[:300])
    rc, errs, text = witness.compile(c, bad, 'bad', HEAD)
    for i, (name, code) in enumerate(bad):
        e = errs.get(i, [])
        c.ob('does not compile: ' + name, any(x in REJECT for x in e), 'accepted by the compiler' if not e else 'rejected for another reason: %s' % e,
             'program: fn w%s' % code)
    c.notes['witnesses'] = '%d rejected programs, %d accepted twins' % (len(bad), len(good))
    c.notes['rule'] = 'no impl or signature mixes two time scales, or a scale and bare numbers, without an explicit offset; witnesses are type errors'


if __name__ == '__main__':
    main('C07', body, floor=200, level='other')
