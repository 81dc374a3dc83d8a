"""Tables of the Fortran reference epv00.for"""
import re


def num(s):
    return s.replace('D', 'E')


def parse(src):
    # join continuation lines
    lines = []
    for l in src.split('\n'):
        if l[:1] in ('*', 'C', 'c', '!') or not l.strip():
            continue
        if len(l) > 5 and l[5] not in ' 0' and l[:5].strip() == '':
            lines[-1] += l[6:]
        else:
            lines.append(l)
    par = {}
    tab = {}
    for l in lines:
        s = l.strip()
        if s.startswith('PARAMETER'):
            for k, v in re.findall(r'(\w+)\s*=\s*([-+]?[\w.+-]+)', s[9:]):
                par[k] = v
        m = re.match(r'DATA \(\((\w+)\(I,J,(\d)\),I=1,3\),J=\s*(\d+),\s*(\w+)\)\s*/(.*)/', s)
        if m:
            name, k, j0, j1, data = m.groups()
            v = [num(x) for x in re.findall(r'[-+]?\d[\dD.+-]*', data)]
            j0, j1 = int(j0), int(par.get(j1, j1))
            assert len(v) == 3 * (j1 - j0 + 1), (name, k, j0, j1, len(v))
            t = tab.setdefault(name, {}).setdefault(k, {})
            for j in range(j0, j1 + 1):
                assert j not in t
                t[j] = v[3 * (j - j0):3 * (j - j0) + 3]
    out = {'matrix': {}, 'tables': {}}
    for k, v in par.items():
        if k.startswith('AM') and k != 'AM':
            out['matrix'][k] = num(v)
    for name in tab:
        for i, c in enumerate('XYZ'):
            t = tab[name][str(i + 1)]
            n = int(par['N%s%s' % (name, c)])
            assert sorted(t)[:n] == list(range(1, n + 1)), (name, c, n, len(t))
            out['tables']['%s%s' % (name, c)] = [t[j] for j in range(1, n + 1)]
    assert len(out['tables']) == 18
    return out
