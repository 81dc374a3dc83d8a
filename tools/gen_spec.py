#!/usr/bin/env python3
"""Writes /verif/spec/*.json, the frozen reference tables (run once; the checks only read the result).
epv00.json comes from the Fortran reference; iau2000b.json from the tables of the repository as published
(IAU 2000B nutation: nut00b; CIO locator: s00) and tai_utc.json from the IERS list in dat.for."""
import json, re, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import epvref
R = '/repo/crates/tofas/src/'
S = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec')
json.dump(epvref.parse(open('/repo/fortran/epv00.for').read()), open(S + '/epv00.json', 'w'))
def table(src, name):
    m = re.search(r'const %s\s*:.*?=\s*&?\[(.*?)\n\];' % name, src, re.S)
    return [[float(x) for x in re.findall(r'[-+]?\d[\d.eE+-]*', row)] for row in re.findall(r'\[([^\[\]]*)\]', m.group(1))]
fr = open(R + 'frames.rs').read()
lo = open(R + 'locator.rs').read()
iau = {'nals': table(fr, 'NALS'), 'cls': table(fr, 'CLS')}
for k in range(5):
    iau['ks%d' % k] = table(lo, 'KS%d' % k)
    iau['ss%d' % k] = table(lo, 'SS%d' % k)
json.dump(iau, open(S + '/iau2000b.json', 'w'))
da = open(R + 'delta_at.rs').read()
rows = []
for y, m, d, r in re.findall(r'DatData \{ year:(\d+),month:(\d+),dat:([\d.]+),drift:(.*?) \}', da):
    dr = re.findall(r'[\d.]+', r) if 'Some' in r else None
    rows.append([int(y), int(m), d, dr])
json.dump(rows, open(S + '/tai_utc.json', 'w'))
print({k: len(v) for k, v in iau.items()}, len(rows))
