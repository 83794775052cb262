"""Geometric and metric products in general (non-orthogonal) metrics."""
from .common import *

BOUNDS = ('conformal models of 1, 2 and 3 Euclidean dimensions and user-declared constant metric matrices of dimension 2, 3 and 4 (dense indefinite ones and a degenerate one); '
          'compile-time basis blades, every coefficient an arbitrary real')


def cases(tier):
    out = []
    spec = []
    for ns, n in (('x_g2', 2), ('x_g3', 3), ('x_gd', 3), ('ga1c', 3)):
        spec.append((ns, '_f', [(full(n), full(n)), (kvec(n, 1), kvec(n, min(2, n))), (mixed(n, 0), mixed(n, 1)), (cblade(1, 2), full(n)), (full(n), cblade(n, 1))], {}))
    spec.append(('ga2c', '_f', [(full(4), full(4))], {'weight': 20}))
    spec.append(('x_g4', '_f', [(kvec(4, 3), kvec(4, 3)), (kvec(4, 4), kvec(4, 4)), (kvec(4, 2), kvec(4, 3)), (cblade(2, 4), full(4))], {'weight': 20}))
    spec.append(('ga2c', '_g', [(kvec(4, 2), kvec(4, 3)), (kvec(4, 3), kvec(4, 3)), (kvec(4, 4), kvec(4, 2)), (cblade(3, 4), full(4)), (full(4), cblade(4))], {}))
    spec.append(('ga3c', '_g', [(kvec(5, 1), kvec(5, 2)), (kvec(5, 3), kvec(5, 1)), (kvec(5, 5), kvec(5, 2)), (cblade(4, 5), kvec(5, 3))], {'weight': 5}))
    spec.append(('ga3c', '_h', [(kvec(5, 2), kvec(5, 2)), (kvec(5, 2), kvec(5, 3))], {'weight': 15}))
    if tier == 'thorough':
        spec.append(('ga3c', '_f', [(full(5), full(5))], {'weight': 90}))
    out += product('P02', 'gp', 'gp', spec)
    for fn in ('lcont', 'rcont', 'dot', 'hip', 'sp'):
        spec = []
        for ns, n in (('x_g2', 2), ('x_g3', 3), ('x_gd', 3), ('ga1c', 3)):
            spec.append((ns, '_' + fn, [(full(n), full(n)), (kvec(n, 1), mixed(n, 1)), (cblade(1, 2), full(n))], {}))
        spec.append(('ga2c', '_' + fn, [(full(4), full(4))], {'weight': 10}))
        spec.append(('x_g4', '_' + fn, [(kvec(4, 3), kvec(4, 3)), (kvec(4, 2), kvec(4, 4))], {'weight': 10}))
        out += product('P02', fn, fn if fn != 'sp' else 'sp_mv', spec)
    return out
