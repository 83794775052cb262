"""lcont and rcont in orthogonal metrics."""
from .common import *
from . import huge

BOUNDS = ('dimension <= 4; single basis blades, constant and run-time, also in 12 dimensions, signature (5, 4, 3) (pairs of run-time ones quickly over the subsets of nine of the basis vectors), and in 60 dimensions, signature (25, 20, 15), the run-time ones being subsets of eight of the basis vectors; Euclidean, plane-based, Minkowski, homogeneous and user-declared signatures; every coefficient an arbitrary real, '
          'every run-time basis blade an arbitrary bitset of the space')


def cases(tier):
    out = []
    for fn in ('lcont', 'rcont'):
        spec = []
        spec += chunks('ga3e', '_s_' + fn, shapes(3), 5)
        spec += chunks('ga3e', '_n_' + fn, numbers(3), 8)
        spec += chunks('ga4e', '_r_' + fn, rblades(4), 8)
        spec += chunks('ga3e', '_q_' + fn, rsums(3), 3) + chunks('x_s111', '_q_' + fn, rsums(3)[:3], 4)
        spec += chunks('x_s111', '_r_' + fn, rblades(3)[:5], 8)
        for ns, n in (('ga2e', 2), ('x_s120', 3), ('x_s111', 3), ('ga2p', 3), ('ga2h', 3), ('ga1m', 3)):
            spec.append((ns, '_f_' + fn, [(full(n), full(n)), (kvec(n, n - 1), mixed(n, 1))], {}))
        for ns in ('ga4e', 'ga3p', 'ga2m'):
            spec.append((ns, '_f_' + fn, [(full(4), full(4))], {'weight': 8}))
        out += product('P05', fn, fn, spec)
    return uniq(out + huge.products(tier, 'P05', 'lcont', 'rcont'))
