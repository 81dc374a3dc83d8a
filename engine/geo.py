"""Common part of C16 and C17: an ellipsoid and its converter."""
from chk import *  # noqa

E = 'tofas::ellipsoid::'
NEW = E + 'EllipsoidConverter::new'
TOGC = E + 'EllipsoidConverter::geodetic_to_geocentric'
TOGD = E + 'EllipsoidConverter::geocentric_to_geodetic'


def ell(p, a, f):
    """an Ellipsoid value"""
    return struct(p, 'ellipsoid::Ellipsoid', a=a, f=f)


def converter(c, s, a, f):
    """the Ok value of EllipsoidConverter::new for a valid ellipsoid"""
    p = c.prog()
    r = call(c, NEW, ell(p, a, f), s=s)
    ok = [v for _, n, v in variants(p, r) if n == 'Ok']
    if not ok:
        raise KeyError('EllipsoidConverter::new never succeeds')
    v = ok[0].f[0]
    return v


def struct(p, name, **kw):
    ty = next(i for i, t in p.types.items() if t['k'] == 'adt' and t['name'].endswith('::' + name))
    names = [n for n, _ in p.types[ty]['v'][0]['f']]
    return Agg(ty, 0, tuple(kw[n] for n in names))
