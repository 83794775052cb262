"""Scalar product and squared reverse norm."""
from .common import *
from . import huge

BOUNDS = 'dimension <= 5; single basis blades, constant and run-time, also in 12 dimensions, signature (5, 4, 3) (pairs of run-time ones quickly over the subsets of nine of the basis vectors), and in 60 dimensions, signature (25, 20, 15), the run-time ones being subsets of eight of the basis vectors; Euclidean, plane-based, Minkowski, homogeneous, conformal and user-declared metrics; every coefficient an arbitrary real, every run-time basis blade an arbitrary bitset of the space'


def cases(tier):
    spec = []
    spec += chunks('ga3e', '_s', shapes(3), 5)
    spec += chunks('ga3e', '_n', numbers(3), 8)
    spec += chunks('ga4e', '_r', rblades(4), 8)
    spec += chunks('ga3e', '_q', rsums(3), 3) + chunks('x_s111', '_q', rsums(3)[:3], 4)
    spec += chunks('x_s111', '_r', rblades(3)[:5], 8)
    for ns, n in (('ga2e', 2), ('x_s120', 3), ('x_s111', 3), ('x_s22', 4), ('x_s013', 4), ('ga2p', 3), ('ga2h', 3), ('ga1m', 3), ('ga4e', 4), ('ga3p', 4), ('ga2m', 4), ('ga1c', 3), ('x_g3', 3)):
        spec.append((ns, '_f', [(full(n), full(n))], {}))
    spec.append(('ga5e', '_f', [(full(5), full(5))], {}))
    spec.append(('ga3m', '_f', [(full(5), full(5))], {}))
    out = product('P07', 'sp', 'sp_mv', spec)
    # squared reverse norm
    for ns, n in (('ga3e', 3), ('ga4e', 4), ('ga5e', 5), ('ga3p', 4), ('ga2m', 4), ('ga3m', 5), ('ga2c', 4), ('ga1c', 3), ('ga3h', 4), ('x_s111', 3), ('x_s120', 3), ('x_g3', 3), ('x_gd', 3)):
        A = SPACES[ns]
        for x in [full(n), kvec(n, 2), mixed(n, 1), mixed(n, 2)] + ([dyn(n), edyn(n), sblade(1, 2), esum(n), esum(n, '-')] if ns in ('ga4e', 'x_s111', 'ga3p') else []):
            out.append(op_case('P07', 'rnorm_sqr', ns, [x], 'rnorm_sqr(x)', lambda x, A=A: {0: A.rnorm_sqr(x)}, A.N, tu=ns + '_q'))
    for ns, n in (('ga3e', 3), ('ga4e', 4), ('ga2h', 3)):
        A = SPACES[ns]
        for x in [full(n), kvec(n, 1), mixed(n, 2), sblade(1), dyn(n)]:
            c = op_case('P07', 'rnorm', ns, [x], 'rnorm(x)', None, A.N, tu=ns + '_q')
            c.post = norm_post(A, x)
            out.append(c)
    return uniq(out + huge.products(tier, 'P07', 'sp'))


def norm_post(A, x):
    def post(c):
        r = c.o('o')[0]
        cs = combos([x.ref(c, 'x')])
        if len(cs) > 1 and c.conc:
            cs = [y for y in cs if y[0] is True]
        sq = guarded(c, cs, lambda m: {0: A.rnorm_sqr(m)}, 1)[0]
        if x.label == 'mix2':       # the constant sqrt(2) is folded to a double
            e = rv(Fraction(1, 10**12))
            c.true('rnorm squared', c.and_(c.le(sq * (RV(1) - e), r * r), c.le(r * r, sq * (RV(1) + e))), (r * r, sq))
        else:
            c.eq('rnorm squared', r * r, sq)
        c.true('rnorm is not negative', c.le(RV(0), r) if not c.conc or isinstance(r, RV) else r >= 0, (r, 'a value >= 0'))
        for k in range(1, A.N):
            c.eq('o[%s]' % format(k, 'b'), c.o('o')[k], RV(0))
    return post
