"""Geometric product in orthogonal metrics."""
from .common import *
from . import huge

BOUNDS = ('dimension <= 4 (5 for run-time basis blades), signatures Euclidean, homogeneous, Minkowski, plane-based and user-declared signed (1,1,1), (1,2,0), (0,1,3), (2,2,0); single basis blades, constant and run-time, also in 12 dimensions, signature (5, 4, 3) (pairs of run-time ones quickly over the subsets of nine of the basis vectors), and in 60 dimensions, signature (25, 20, 15), the run-time ones being subsets of eight of the basis vectors; '
          'every coefficient an arbitrary real, every run-time basis blade an arbitrary bitset of the space')


def cases(tier):
    spec = []
    spec += chunks('ga3e', '_s', shapes(3), 5)
    spec += chunks('ga3e', '_n', numbers(3), 8)
    spec += chunks('ga4e', '_r', rblades(4), 8)
    spec += chunks('x_s111', '_r', rblades(3), 8)
    spec += chunks('ga3e', '_q', rsums(3), 3) + chunks('x_s111', '_q', rsums(3)[:4], 4)
    for ns, n in (('ga2e', 2), ('x_s111', 3), ('x_s120', 3), ('ga1m', 3), ('ga2p', 3), ('ga2h', 3)):
        spec.append((ns, '_f', [(full(n), full(n)), (kvec(n, 1), mixed(n, 0)), (mixed(n, 1), cblade(2, 1))], {}))
    for ns in ('ga4e', 'ga3p', 'x_s22', 'x_s013', 'ga2m'):
        spec.append((ns, '_f', [(full(4), full(4))], {'weight': 8}))
    for ns in ('ga5e', 'ga3m', 'ga4p'):
        spec.append((ns, '_r', [(dyn(5), dyn(5))], {'weight': 4}))
    for ns in ('ga3p', 'ga2m'):
        spec.append((ns, '_r', [(dyn(4), dyn(4)), (edyn(4), dyn(4))], {'weight': 2}))
    out = product('P01', 'gp', 'gp', spec)
    return uniq(out + huge.products(tier, 'P01', 'gp'))
