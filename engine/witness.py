"""Witness programs: small functions type-checked by rustc against the metadata of the crates, one per line; nothing is run."""
import glob
import json
import os
import subprocess


def compile(c, l, name, head='', crates=('tofas',)):
    """l: list of (name, code after 'pub fn wN'); returns the exit code, {index: [error codes]}, rustc's output"""
    out = c.dump()
    cmd = ['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--emit=metadata', '--error-format=json', '-o', os.path.join(out, name + '.rmeta')]
    for k in crates:
        meta = glob.glob(os.path.join(out, 'target', 'debug', '**', 'lib%s-*.rmeta' % k), recursive=True)
        if len(meta) != 1:
            raise KeyError('metadata of %s: %s' % (k, meta))
        cmd += ['--extern', '%s=%s' % (k, meta[0])]
    for x in sorted({os.path.dirname(f) for f in glob.glob(os.path.join(out, 'target', 'debug', '**', '*.rmeta'), recursive=True)}):
        cmd += ['-L', 'dependency=' + x]
    src = os.path.join(out, name + '.rs')
    first = ('#![allow(warnings)]\n' + head).rstrip('\n') + '\n'
    with open(src, 'w') as f:
        f.write(first)
        for i, (_, code) in enumerate(l):
            f.write('pub fn w%d%s\n' % (i, code))
    r = subprocess.run(cmd + [src], capture_output=True, text=True)
    errs = {}
    for line in r.stderr.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get('level') == 'error':
            for sp in m['spans']:
                if sp['is_primary'] and sp['file_name'] == src:
                    errs.setdefault(sp['line_start'] - first.count('\n') - 1, []).append((m.get('code') or {}).get('code') or m['message'])
    return r.returncode, errs, r.stderr
