"""The EPV00 model of the Fortran reference as polynomials over Alg: the oracle of C13, C14."""
import json
import os
from chk import *  # noqa

KEY = '<tofas::earth::EarthPosVel as std::convert::From<tofas::time::TDB>>::from'


def table():
    with open(os.path.join(HERE, 'spec', 'epv00.json')) as f:
        return json.load(f)


def series(A, T, prefix, axis, t):
    r = con(A, 0)
    for pw in range(3):
        s = con(A, 0)
        for a, b, cc in T['tables']['%s%d%s' % (prefix, pw, axis)]:
            s = s + (t * D(cc) + D(b)).cos() * D(a)
        r = r + s * t ** pw
    return r


def rotate(A, T, v):
    am = {k: D(x) for k, x in T['matrix'].items()}
    x, y, z = v
    return [x + y * am['AM12'] + z * am['AM13'],
            x * am['AM21'] + y * am['AM22'] + z * am['AM23'],
            y * am['AM32'] + z * am['AM33']]


def bind(A, u1, u2):
    t, y = sym(A, 't'), sym(A, 'y')
    A.bind.update({u1: (t * D('365.25') - y + 2451545).p, u2: y.p})
    return t


def positions(A, T, t):
    """heliocentric and barycentric position"""
    h = [series(A, T, 'E', a, t) for a in 'XYZ']
    b = [p + series(A, T, 'S', a, t) for p, a in zip(h, 'XYZ')]
    return rotate(A, T, h), rotate(A, T, b)


def comps(p, r, path):
    l = [n for _, n in scalars(get(p, r, path))]
    assert len(l) == 3, path
    return l
