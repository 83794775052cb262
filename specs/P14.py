"""Versor inverse and inverse geometric product."""
from .common import *

BOUNDS = ('dimension <= 4; Euclidean, homogeneous, Minkowski, conformal, plane-based and user-declared metrics; vectors, k-vectors, blades, products of up to three vectors, '
          'rotors, run-time basis blades and full multivectors with non-zero squared reverse norm; every coefficient an arbitrary real')


def versors(n, A):
    """operands that are versors by construction"""
    r = [kvec(n, 1), sblade(1), cblade(1, 2), cblade(min(3, n), 1), num(), scal(), cnum(-2), inum(3), mixed(n, 2), kvec(n, n), kvec(n, 0)]
    if n == 2:
        r += [full(2, first=2)]
    if n == 3 and A.orthogonal:
        r += [kvec(3, 2)]
    r.append(expr('rot', 'scalar($[0]) + $[1] * (e(c<1>) ^ e(c<2>))', 2, lambda x: {0: x[0], 3: x[1]}))
    return r


def cases(tier):
    out = []
    spaces = [('ga2e', 2), ('ga3e', 3), ('ga2h', 3), ('ga1m', 3), ('ga2p', 3), ('x_s120', 3), ('ga1c', 3), ('x_g3', 3)]
    if tier == 'thorough':
        spaces += [('ga4e', 4), ('ga2m', 4), ('ga2c', 4), ('ga3p', 4), ('x_s22', 4), ('x_g2', 2), ('x_s111', 3), ('ga1h', 2)]
    for ns, n in spaces:
        A = SPACES[ns]
        one = lambda *a: {0: RV(1)}
        nz = lambda A=A: (lambda c, x: [c.or_(*[c.and_(g, c.ne(A.rnorm_sqr(d), RV(0))) for g, d in x])])
        for x in versors(n, A):
            # the pseudoscalar of a degenerate space and null basis blades have no inverse
            if zero(A.rnorm_sqr(x.ref(Probe(), 'x')[0][1])):
                continue
            out.append(call('P14', ns, 'inv(x)', [x], A.inv, 'inv', tu=ns + '_inv'))
            bare = x.label == 'num' or x.label.startswith('int')
            if not bare:
                out.append(call('P14', ns, 'gp(x, inv(x))', [x], one, 'right', tu=ns + '_inv', pre=nz()))
                out.append(call('P14', ns, 'gp(inv(x), x)', [x], one, 'left', tu=ns + '_inv', pre=nz()))
        if not (n > 3 and not A.orthogonal):
            out.append(call('P14', ns, 'inv(x)', [full(n) if n < 4 else full(n, first=0, last=2)], A.inv, 'inv', tu=ns + '_full'))
        for x in ([dyn(n), edyn(n), udyn(n), dyn(n, 'double', 1, 2), esum(n), esum(n, '-')] if A.orthogonal else []):
            out.append(call('P14', ns, 'inv(x)', [x], A.inv, 'inv', tu=ns + '_dyn', pre=nz()))
        vec = kvec(n, 1)
        P2 = lambda x, y, A=A: A.gp(x, y)
        nz2 = lambda A=A: (lambda c, x, y: [c.ne(A.rnorm_sqr(A.gp(x[0][1], y[0][1])), RV(0))])
        out.append(call('P14', ns, 'inv(gp(x, y))', [vec, vec], lambda x, y, A=A: A.inv(A.gp(x, y)), 'inv_vv', tu=ns + '_prod'))
        out.append(call('P14', ns, 'gp(gp(x, y), inv(gp(x, y)))', [vec, vec], lambda x, y: {0: RV(1)}, 'vv', tu=ns + '_prod', pre=nz2()))
        if n <= 3:
            out.append(call('P14', ns, 'auto const v = gp(gp(x, y), z); gsv::out(o, gp(inv(v), v));', [vec, vec, sblade(1)], lambda x, y, z: {0: RV(1)}, 'vvv', tu=ns + '_prod',
                            pre=lambda c, x, y, z, A=A: [c.ne(A.rnorm_sqr(A.gp(A.gp(x[0][1], y[0][1]), z[0][1])), RV(0))]))
        # inverse geometric product and division
        igp = lambda x, y, A=A: A.gp(x, A.inv(y))
        f = full(n) if n < 4 else kvec(n, 2)
        for x, y in [(f, kvec(n, 1)), (f, num()), (f, scal()), (f, cnum(4)), (num(), kvec(n, 1)), (kvec(n, 1), cblade(1, 2)), (mixed(n, 0), sblade(2)), (mixed(n, 1), kvec(n, 1)),
                     (inum(3), kvec(n, 1)), (cnum(3), mixed(n, 2)), (f, inum(-2)), (scal(), scal()), (scal(), num()), (num(), scal()), (cnum(3), cnum(-2)), (scal(), cblade(1))]:
            if zero(A.rnorm_sqr(y.ref(Probe(), 'y')[0][1])):
                continue
            out.append(call('P14', ns, 'igp(x, y)', [x, y], igp, 'igp', tu=ns + '_igp'))
            if not (x.label in ('num', 'int3') and y.label not in ('scal',)):
                out.append(call('P14', ns, 'x / y', [x, y], igp, 'div', tu=ns + '_div'))
        if A.orthogonal:
            for x, y in [(kvec(n, 1), dyn(n)), (dyn(n), dyn(n)), (dyn(n), sblade(1)), (dyn(n), scal()), (dyn(n), cnum(2)), (dyn(n), num())]:
                if x.label == 'k1' and n > 2 and tier != 'thorough':
                    continue
                nzy = lambda c, x, y, A=A: [c.or_(*[c.and_(g, c.ne(A.rnorm_sqr(d), RV(0))) for g, d in y])]
                out.append(call('P14', ns, 'igp(x, y)', [x, y], igp, 'igp', tu=ns + '_igpd', pre=nzy))
    return uniq(out)

