"""Dualisation and undualisation."""
from .common import *

BOUNDS = 'dimension <= 4 (5 for k-vectors, thorough); every real coefficient and run-time basis blade; default pseudoscalar where it is invertible, and user-given pseudoscalars'


def cases(tier):
    out = []
    spaces = [('ga2e', 2), ('ga3e', 3), ('ga2h', 3), ('ga1m', 3), ('x_s120', 3), ('ga1c', 3), ('x_g3', 3), ('ga3h', 4), ('ga2m', 4)]
    deg = [('ga2p', 3), ('x_s111', 3)]
    if tier == 'thorough':
        spaces += [('ga1e', 1), ('ga4e', 4), ('ga2c', 4), ('x_s22', 4), ('x_g2', 2), ('ga1h', 2), ('ga3m', 5), ('ga3c', 5)]
        deg += [('x_s013', 4), ('ga3p', 4)]
    for ns, n in spaces + deg:
        A = SPACES[ns]
        P = A.pseudoscalar()
        ok = (ns, n) not in deg
        iP = A.inv(P) if ok else None
        dual = lambda x, A=A, iP=iP: A.lcont(x, iP)
        undual = lambda x, A=A, P=P: A.lcont(x, P)
        ops = unary(n) if n <= 4 else [kvec(n, 1), kvec(n, 2), mixed(n, 1)]
        for x in ops + (rblade1(n) + [esum(n), dsum(n)] if A.orthogonal else []):
            if ok:
                out.append(call('P16', ns, 'dual(x)', [x], dual, 'dual', tu=ns + '_d'))
            out.append(call('P16', ns, 'undual(x)', [x], undual, 'undual', tu=ns + '_u'))
        f = full(n) if n <= 4 else kvec(n, 2)
        same = lambda x: x
        if ok:
            out.append(call('P16', ns, 'undual(dual(x))', [f], same, 'round', tu=ns + '_c'))
            out.append(call('P16', ns, 'dual(undual(x))', [f], same, 'round2', tu=ns + '_c'))
            out.append(call('P16', ns, 'gp(dual(x), I)', [f], same, 'times_I', tu=ns + '_c'))
            if A.orthogonal:
                out.append(call('P16', ns, 'undual(dual(x))', [dyn(n)], same, 'round', tu=ns + '_cd'))
                # dual turns the outer product into the contraction: (a ^ b)* = a . b*
                out.append(call('P16', ns, 'dual(op(x, y)) - lcont(x, dual(y))', [f, f] if n <= 3 else [kvec(n, 1), f], lambda x, y: {}, 'duality', tu=ns + '_c'))
        # explicit pseudoscalar: weighted, of a subspace, and one of the space
        m = 2 if n >= 2 else 1
        w = [sblade(*range(1, n + 1)), cblade(1, 2) if n >= 2 else cblade(1), sblade(2, 1) if n >= 2 else sblade(1), expr('cI', 'c<2> * I', 0, lambda x, A=A: {A.N - 1: RV(2)})]
        for y in w:
            d2 = lambda x, y, A=A: A.lcont(x, A.inv(y))
            u2 = lambda x, y, A=A: A.lcont(x, y)
            xs = [f, kvec(n, 1), mixed(n, 1), num(), scal()]
            if A.orthogonal:
                xs.append(dyn(n))
            for x in xs:
                out.append(call('P16', ns, 'undual(x, y)', [x, y], u2, 'undual2', tu=ns + '_u2'))
                if zero(A.rnorm_sqr(y.ref(Probe(), 'y')[0][1])):
                    continue
                out.append(call('P16', ns, 'dual(x, y)', [x, y], d2, 'dual2', tu=ns + '_d2', pre=nonzero(A, lambda x, y: y)))
    return uniq(out)
