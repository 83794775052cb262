"""Normalisation under the reverse norm."""
from .common import *

BOUNDS = 'dimension <= 4 (5 for vectors); Euclidean, Minkowski, homogeneous, conformal, plane-based and user-declared metrics; every real coefficient and run-time basis blade with non-zero reverse norm'


def unit(A):
    def f(c, x):
        r = c.sqrt(c.abs(A.rnorm_sqr(x)))
        return {k: v / r for k, v in x.items()}
    return f


def cases(tier):
    out = []
    spaces = [('ga2e', 2), ('ga3e', 3), ('ga2h', 3), ('ga1m', 3), ('ga2p', 3), ('x_s120', 3), ('ga1c', 3), ('x_g3', 3), ('ga2c', 4)]
    if tier == 'thorough':
        spaces += [('ga4e', 4), ('ga2m', 4), ('ga3p', 4), ('x_s22', 4), ('x_g2', 2), ('x_s111', 3), ('ga1h', 2), ('x_s013', 4), ('ga3c', 5), ('ga3m', 5)]
    for ns, n in spaces:
        A = SPACES[ns]
        ops = [kvec(n, 1), sblade(1), cblade(1, 2), num(), scal(), cnum(-2), inum(3), mixed(n, 0), mixed(n, 1), mixed(n, 2), mixed(n, 3), kvec(n, n), kvec(n, 0), cnum(4),
               expr('c21', 'c<3> * (e(c<2>) ^ e(c<1>))', 0, lambda x: {3: RV(-3)}), expr('sum', '$[0] * (e(c<1>) + e(c<2>))', 1, lambda x: {1: x[0], 2: x[0]})]
        if n <= 3:
            ops += [full(n), kvec(n, 2)]
        for x in ops:
            if zero(A.rnorm_sqr(x.ref(Probe(), 'x')[0][1])):
                continue
            out.append(call('P15', ns, 'unit(x)', [x], unit(A), 'unit', tu=ns + '_unit', pre=nonzero(A), ctx=True))
        if A.orthogonal:
            for x in (dyn(n), edyn(n), udyn(n), dyn(n, 'double', 1, 2), esum(n), esum(n, '-')):
                out.append(call('P15', ns, 'unit(x)', [x], unit(A), 'unit', tu=ns + '_dyn', pre=nonzero(A), ctx=True))
        # the squared reverse norm of the result is +1 or -1, with the sign of that of the argument
        for x in ([kvec(n, 1), mixed(n, 1)] + ([full(n)] if n <= 3 and A.orthogonal else [])):
            if zero(A.rnorm_sqr(x.ref(Probe(), 'x')[0][1])):
                continue
            sg = lambda c, x, A=A: {0: c.ite(c.lt(RV(0), A.rnorm_sqr(x)), RV(1), RV(-1))}
            out.append(call('P15', ns, 'rnorm_sqr(unit(x))', [x], sg, 'one', tu=ns + '_one', pre=nonzero(A), ctx=True))
        vv = lambda c, x, y, A=A: unit(A)(c, A.gp(x, y))
        out.append(call('P15', ns, 'unit(gp(x, y))', [kvec(n, 1), mixed(n, 0)], vv, 'gp', tu=ns + '_c', pre=nonzero(A, A.gp), ctx=True))
        vv = lambda c, x, y, A=A: unit(A)(c, A.op(x, y))
        if not zero(A.rnorm_sqr(A.op(*[o.ref(Probe(), v)[0][1] for o, v in ((kvec(n, 1), 'x'), (mixed(n, 0), 'y'))]))):
            out.append(call('P15', ns, 'unit(op(x, y))', [kvec(n, 1), mixed(n, 0)], vv, 'op', tu=ns + '_c', pre=nonzero(A, A.op), ctx=True))
    return uniq(out)
