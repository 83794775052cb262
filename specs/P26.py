"""The delta product."""
from .common import *
from .P19 import big, DBL

BOUNDS = ('dimension <= 3 for full operands, 4 for vectors, blades and mixtures; every representation of the operands; every real coefficient, every run-time basis blade, '
          'default tolerances and every non-negative run-time tolerance, constant tolerances 1/4 and 1')


def top(A, tol=None):
    """the components of the highest grade of the geometric product that has a coefficient above the tolerance"""
    def f(c, x, y, *t):
        p = A.gp(x, y)
        b = big(c, p, t[0][0] if t else RV(tol))
        out = {}
        for k, v in p.items():
            g = ref.grade(k)
            out[k] = c.ite(c.and_(b[g], *[c.not_(b[h]) for h in b if h > g]), v, RV(0))
        return out
    return f


def cases(tier):
    out = []
    nn = lambda c, x, y, z: [c.le(RV(0), z[0][1][0])]
    spaces = [('ga3e', 3), ('ga2e', 2), ('ga2h', 3), ('ga1m', 3), ('x_s111', 3), ('ga1c', 3), ('x_g3', 3), ('ga2p', 3)]
    if tier == 'thorough':
        spaces += [('ga1e', 1), ('ga4e', 4), ('ga2m', 4), ('ga2c', 4), ('ga3h', 4), ('x_s22', 4), ('x_g2', 2), ('x_gd', 3)]
    for ns, n in spaces:
        A = SPACES[ns]
        k1, k2 = kvec(n, 1), kvec(n, min(2, n))
        f = full(n)
        b2 = cblade(1, 2) if n > 1 else cblade(1)
        pairs = [(k1, k1), (k1, k2), (k2, k1), (sblade(1), k1), (b2, k1), (k1, cblade(n)), (scal(), k1), (k2, num()), (num(), k1), (cnum(2), k2), (scal(), scal()), (num(), scal())]
        if n > 1:
            pairs += [(mixed(n, 0), k1), (k1, mixed(n, 2)), (mixed(n, 2), mixed(n, 2)), (mixed(n, 2), mixed(n, 0)), (mixed(n, 1), mixed(n, 3)), (cblade(1), b2)]
        if n < 3 or ns == 'ga3e':
            pairs += [(k2, k2)] + ([(k1, f), (f, k2)] if n < 3 else [])
        if A.orthogonal:
            pairs += [(dyn(n), dyn(n)), (edyn(n), edyn(n)), (dyn(n), b2), (sblade(1), dyn(n)), (udyn(n), edyn(n))]
            if n <= 3 and ns in ('ga2e', 'ga3e') or tier == 'thorough' and n < 4:
                pairs += [(edyn(n), k1)] + ([(esum(n), edyn(n))] if n < 3 else [])
        for i, (x, y) in enumerate(pairs):
            const = not any(o.ins(v).get(v + '_') for o, v in ((x, 'x'), (y, 'y')))
            tol = 0 if const else DBL
            # products of a sum with equal indices keep equal basis blades in separate components (see P20): tolerances are compared with each of them
            kw = {'pre': lambda c, x, y, *t: [c.not_(c.same_u(*c.i('xb')))]} if x.label == 'esum' else {}
            u = '_%d' % (i % 2)
            out.append(call('P26', ns, 'dp(x, y)', [x, y], top(A, tol), 'dp', tu=ns + u, ctx=True, **kw))
            if i % 3 == 0 or tier == 'thorough' or x.label == 'dyn' == y.label:
                out.append(call('P26', ns, 'dp(x, y, z)', [x, y, num()], top(A), 'dpt', tu=ns + '_t', ctx=True, pre=lambda c, x, y, z, kw=kw: nn(c, x, y, z) + (kw['pre'](c, x, y) if kw else [])))
            if i % 4 == 1 or tier == 'thorough':
                out.append(call('P26', ns, 'dp(x, y, 0.25)', [x, y], top(A, Fraction(1, 4)), 'dpq', tu=ns + '_t', ctx=True, **kw))
                if not const:
                    out.append(call('P26', ns, 'dp(x, y, c<1>)', [x, y], top(A, 1), 'dpc', tu=ns + '_t', ctx=True, **kw))
    out.append(call('P26', 'ga3e', 'dp(x, y)', [num(), num()], top(SPACES['ga3e'], DBL), 'dp', tu='ga3e_num', ctx=True))
    return uniq(out)
