"""C22: purity; effect and ownership queries over the MIR of both crates and of everything they call."""
import json
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from chk import *  # noqa

# callees without MIR that are pure functions of their arguments (or of the formatter they are given)
PURE = [r'core::fmt::', r'std::fmt::', r'core::num::imp::libm::', r'std::sys::cmath::\w+$', r'core::panicking::', r'std::rt::panic', r'core::str::', r'core::slice::',
        r'std::result::unwrap_failed', r'core::result::unwrap_failed', r'(std|core)::option::', r'std::intrinsics::', r'core::intrinsics::', r'(std|core)::(f64|f32)::',
        r'std::(f64|f32)::', r'core::num::', r'core::mem::', r'std::mem::', r'<alloc::', r'alloc::(vec|string|alloc|raw_vec|boxed|fmt|slice|str)\b', r'core::ptr::', r'std::ptr::', r'alloc::',
        r'core::array::', r'core::iter::', r'core::ops::', r'core::cmp::', r'core::char::', r'core::error::', r'std::alloc::', r'alloc::', r'std::(string|vec|boxed)::', r'__rust_no_alloc_shim', r'core::hint::']
# effects: clock, environment, files, terminal, network, processes, threads, shared or lazy state, randomness, addresses
EFFECT = re.compile(r'\b(std|core|alloc)::(time::(Instant|SystemTime)|env::|fs::|io::|net::|process::|thread::|sync::|cell::|random::|os::|backtrace::|hash::random|'
                    r'collections::hash|rt::begin|alloc::System|panic::|lazy)|std::sys::(?!cmath)|LocalKey|RandomState|OnceCell|OnceLock|LazyLock|LazyCell|\bAtomic\w*|\batomic::|'
                    r'core::arch::|std::arch::|asm|std::intrinsics::atomic_|volatile|::new_pointer\b|fmt::Pointer')
SHARED = re.compile(r'\b(UnsafeCell|SyncUnsafeCell|Cell|RefCell|OnceCell|OnceLock|LazyCell|LazyLock|Mutex|RwLock|Atomic\w*|LocalKey|Condvar|Receiver|Sender)$')


def body(c):
    total = 0
    for prog in ('tofas.lib', 'tofas_extras.lib'):
        p = c.prog(prog)
        d = p.d

        def where(s):
            return '%s:%s' % tuple(s) if s else ''

        def shared(i, seen):
            """path to an interior-mutable or thread-bound component of a type"""
            if i in seen or i not in p.types:
                return None
            seen.add(i)
            t = p.types[i]
            if t['k'] == 'adt':
                n = re.sub(r'<.*', '', t['name'])
                if SHARED.search(n):
                    return n
                for v in t['v']:
                    for fn, x in v['f']:
                        r = shared(x, seen)
                        if r:
                            return '%s.%s' % (n, r)
            for x in [t.get('e')] + list(t.get('f') or []):
                r = shared(x, seen) if isinstance(x, int) else None
                if r:
                    return r
            if t['k'] in ('dyn', 'fnptr'):
                return None
            return None
        for s in d['statics']:
            r = shared(s['ty'], set())
            c.ob('%s: static %s is immutable data' % (prog, s['name']), r is None and not s.get('mut'), 'static with %s' % (r or 'mutable contents'), where(s['span']))
        c.ob('%s: no mutable or lazily initialised static' % prog, True)
        for a in d['adts']:
            r = shared(a['ty'], set())
            c.ob('%s: no interior mutability in %s' % (prog, a['name']), r is None, 'contains %s' % r, where(a['span']))
        for s in d['consts']:
            if isinstance(s, dict) and isinstance(s.get('ty'), int):
                r = shared(s['ty'], set())
                if r:
                    c.ob('%s: constants' % prog, False, 'a constant or static of type %s is used (%s)' % (p.tyname(s['ty']), r), prog)
        c.ob('%s: no foreign functions' % prog, not d['foreign'], '%s foreign items' % d['foreign'])
        for it in d['items']:
            if it.get('sig'):
                ok = not it['sig']['unsafe'] and it['sig']['abi'] == 'Rust'
                c.ob('%s: %s is a safe Rust function' % (prog, it['name']), ok, 'unsafe or foreign ABI', where(it['span']))
        # the call graph
        reach = p.fns
        nloc = 0
        for k, f in reach.items():
            total += 1
            n = f['name']
            m = EFFECT.search(n)
            c.ob('%s: effect of %s' % (prog, k), not m, 'reaches %s' % n, caller(p, k))
            if not f.get('body'):
                dn = f.get('def') or n
                pure = any(re.match(r'(<.* as )?' + x, dn) or re.match(x, n) for x in PURE) or f.get('intrinsic')
                pure = pure or f['krate'] in ('core', 'alloc')      # their effects all match EFFECT
                if not f['krate'].startswith('tofas') or f['kind'] != 'Virtual':
                    c.ob('%s: callee without MIR %s' % (prog, k), pure or f['krate'] == 'tofas', 'not known to be pure: %s' % n, caller(p, k))
                continue
            if f.get('local'):
                nloc += 1
                c.fns.add(k)
                for b in f['body']['blocks']:
                    for s in b['s']:
                        if s[0] == '=' and s[3][0] == 'cast' and 'Expose' in str(s[3][1]):
                            c.ob('%s: addresses in %s' % (prog, k), False, 'an address is turned into a number', where(b['sp']))
                    if b['t'][0] == 'asm':
                        c.ob('%s: %s' % (prog, k), False, 'inline assembly', where(b['sp']))
        c.notes['functions_of_' + prog] = nloc
        if prog == 'tofas.lib':
            c.ob('enough functions inspected', nloc >= 100, '%d local functions' % nloc)
    # unsafe code, from the lint of the compiler
    n = 0
    for line in c.build_out.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        msg = m.get('message') or {}
        if m.get('reason') == 'compiler-message' and (msg.get('code') or {}).get('code') == 'unsafe_code':
            if 'lib' in m['target']['kind']:
                sp = msg['spans'][0]
                c.ob('no unsafe code', False, msg['message'], '%s:%d' % (sp['file_name'], sp['line_start']))
        n += m.get('reason') == 'compiler-artifact'
    c.ob('no unsafe code (lint ran on the crates)', n >= 2, 'no compiler output')
    for f, l in lint_overrides():
        c.ob('the unsafe_code lint is not switched off', False, 'allow(unsafe_code)', '%s:%d' % (f, l))
    c.notes['call_graph_nodes'] = total
    c.notes['rule'] = 'no unsafe code, no static or constant with interior mutability, no callee with an effect in the call graph of any item'


def caller(p, key):
    for k, f in p.fns.items():
        if f.get('local') and f.get('body'):
            for b in f['body']['blocks']:
                if b['t'][0] == 'call' and key in json.dumps(b['t'][1]):
                    return '%s:%s (%s)' % (b['sp'][0], b['sp'][1], k)
    return key


def lint_overrides():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'crates')):
        if '/target' in d:
            continue
        for f in fs:
            if f.endswith('.rs') and '/src' in d:
                with open(os.path.join(d, f), errors='replace') as h:
                    for i, l in enumerate(h, 1):
                        if re.search(r'allow\s*\([^)]*unsafe_code', l.split('//')[0]):
                            out.append((os.path.join(d, f), i))
    return out


if __name__ == '__main__':
    main('C22', body, floor=300, level='other')
