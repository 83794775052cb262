"""Outer product."""
from .common import *
from . import huge

BOUNDS = 'dimension <= 5; single basis blades, constant and run-time, also in 12 dimensions, signature (5, 4, 3) (pairs of run-time ones quickly over the subsets of nine of the basis vectors), and in 60 dimensions, signature (25, 20, 15), the run-time ones being subsets of eight of the basis vectors; Euclidean, plane-based, conformal and Minkowski models; every coefficient an arbitrary real, every run-time basis blade an arbitrary bitset of the space'


def cases(tier):
    spec = []
    spec += chunks('ga3e', '_s', shapes(3), 5)
    spec += chunks('ga3e', '_n', numbers(3), 8)
    spec += chunks('ga4e', '_r', rblades(4), 8)
    spec += chunks('ga3e', '_q', rsums(3), 3) + chunks('x_s111', '_q', rsums(3)[:4], 4)
    spec += chunks('ga2c', '_r', rblades(4)[:8], 8)
    for ns, n in (('ga2e', 2), ('ga1c', 3), ('x_g3', 3), ('ga2p', 3), ('ga1m', 3)):
        spec.append((ns, '_f', [(full(n), full(n)), (kvec(n, 1), mixed(n, 0)), (mixed(n, 1), cblade(2, 1))], {}))
    for ns in ('ga4e', 'ga3p', 'ga2c'):
        spec.append((ns, '_f', [(full(4), full(4))], {'weight': 8}))
    spec.append(('ga5e', '_f', [(kvec(5, 1), kvec(5, 2)), (kvec(5, 2), kvec(5, 2)), (kvec(5, 3), kvec(5, 2)), (kvec(5, 3), kvec(5, 3))], {'weight': 8}))
    spec.append(('ga5e', '_r', [(dyn(5), dyn(5)), (edyn(5), dyn(5))], {'weight': 4}))
    out = product('P03', 'op', 'op', spec)
    A = SPACES['ga4e']
    out.append(op_case('P03', 'op3', 'ga4e', [kvec(4, 1), kvec(4, 1), kvec(4, 1)], 'x ^ y ^ z', lambda x, y, z: A.op(A.op(x, y), z), A.N, tu='ga4e_w'))
    out.append(op_case('P03', 'opassoc', 'ga4e', [kvec(4, 1), kvec(4, 1), kvec(4, 2)], 'x ^ (y ^ z)', lambda x, y, z: A.op(A.op(x, y), z), A.N, tu='ga4e_w'))
    out.append(op_case('P03', 'opalt', 'ga4e', [kvec(4, 1)], 'x ^ x', lambda x: {}, A.N, tu='ga4e_w'))
    return uniq(out + huge.products(tier, 'P03', 'op'))
