"""Regressive product."""
from .common import *
from . import huge

BOUNDS = 'dimension <= 4; single basis blades, constant and run-time, also in 12 dimensions, signature (5, 4, 3) (pairs of run-time ones quickly over the subsets of nine of the basis vectors), and in 60 dimensions, signature (25, 20, 15), the run-time ones being subsets of eight of the basis vectors; every coefficient an arbitrary real, every run-time basis blade an arbitrary bitset of the space'


def cases(tier):
    spec = []
    spec += chunks('ga3e', '_s', shapes(3), 5)
    spec += chunks('ga3e', '_n', numbers(3), 8)
    spec += chunks('ga4e', '_r', rblades(4), 8)
    spec += chunks('ga3e', '_q', rsums(3), 3)
    for ns, n in (('ga2e', 2), ('ga1c', 3), ('x_g3', 3), ('ga2p', 3), ('ga2h', 3), ('ga1m', 3)):
        spec.append((ns, '_f', [(full(n), full(n)), (kvec(n, n - 1), mixed(n, 1)), (cblade(2, 1), mixed(n, 1))], {}))
    for ns in ('ga4e', 'ga3p', 'ga2c'):
        spec.append((ns, '_f', [(full(4), full(4))], {'weight': 8}))
    spec.append(('ga5e', '_f', [(kvec(5, 4), kvec(5, 3)), (kvec(5, 3), kvec(5, 3)), (kvec(5, 5), kvec(5, 2))], {'weight': 8}))
    return uniq(product('P04', 'rp', 'rp', spec) + huge.products(tier, 'P04', 'rp'))
