"""Commutator product."""
from .common import *
from . import huge

BOUNDS = 'dimension <= 4; single basis blades, constant and run-time, also in 12 dimensions, signature (5, 4, 3) (pairs of run-time ones quickly over the subsets of nine of the basis vectors), and in 60 dimensions, signature (25, 20, 15), the run-time ones being subsets of eight of the basis vectors; every coefficient an arbitrary real; every run-time basis blade an arbitrary bitset of the space'


def cases(tier):
    spec = []
    pairs = [p for p in shapes(3)]
    spec += chunks('ga3e', '_s', pairs, 4)
    spec += chunks('ga3e', '_q', rsums(3), 3) + chunks('ga3e', '_r', rblades(3), 8) + chunks('x_s111', '_r', rsums(3)[:3] + rblades(3)[:5], 4)
    for ns, n in (('ga2e', 2), ('x_s111', 3), ('ga1m', 3), ('ga2p', 3), ('ga1c', 3), ('x_g3', 3)):
        spec.append((ns, '_f', [(full(n), full(n)), (kvec(n, 2), mixed(n, 1))], {}))
    spec.append(('ga4e', '_f', [(kvec(4, 2), kvec(4, 2)), (kvec(4, 2), full(4)), (kvec(4, 1), kvec(4, 3))], {'weight': 4}))
    return uniq(product('P08', 'cp', 'cp', spec) + huge.products(tier, 'P08', 'cp'))
