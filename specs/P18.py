"""Exponential of blades."""
from .common import *

BOUNDS = ('dimension <= 4; scalars, vectors, bivectors and pseudoscalars of spaces where every such element is a blade, weighted and run-time basis blades, sums of constant and run-time components; '
          'elliptic, hyperbolic and null squares; default and explicit tolerances, constant and run-time')


def expo(A, tol=None):
    def f(c, x, *t):
        s = A.sp(x, x)
        a2 = c.abs(s)
        T = t[0][0] if t else RV(tol)
        a = c.sqrt(a2)
        small = c.le(a2, T)
        neg = c.le(s, RV(0))
        k0 = c.ite(small, RV(1), c.ite(neg, c.fn('cos', a), c.fn('cosh', a)))
        out = {0: k0}
        for k, v in x.items():
            w = c.ite(small, v, c.ite(neg, c.fn('sin', a) * v / a, c.fn('sinh', a) * v / a))
            out[k] = out[k] + w if k in out else w
        return out
    return f


def cases(tier):
    out = []
    D = Fraction(1e-8)
    spaces = [('ga2e', 2), ('ga3e', 3), ('ga2h', 3), ('ga1m', 3), ('ga2p', 3), ('x_s120', 3), ('ga1c', 3), ('x_g3', 3)]
    if tier == 'thorough':
        spaces += [('ga4e', 4), ('ga2m', 4), ('ga3p', 4), ('x_s22', 4), ('x_g2', 2), ('x_s111', 3), ('ga3h', 4), ('ga2c', 4), ('x_s013', 4)]
    for ns, n in spaces:
        A = SPACES[ns]
        ops = [kvec(n, 1), kvec(n, n), kvec(n, n - 1), sblade(1), sblade(1, 2), sblade(1, n), mixed(n, 0),
               expr('bv', '$[0] * (e(c<1>) ^ e(c<2>)) + c<2> * (e(c<1>) ^ e(c<%d>))' % n, 1, lambda x, n=n: {3: x[0], 1 | 1 << (n - 1): RV(2)}) if n > 2 else sblade(2, 1),
               expr('half', '($[0] / c<2>) * (e(c<2>) ^ e(c<1>))', 1, lambda x: {3: -x[0] / RV(2)})]
        for x in ops:
            out.append(call('P18', ns, 'exp(x)', [x], expo(A, D), 'exp', tu=ns + '_e', ctx=True))
            out.append(call('P18', ns, 'exp(x, y)', [x, num()], expo(A), 'expt', tu=ns + '_t', ctx=True, pre=lambda c, x, y: [c.le(RV(0), y[0][1][0])]))
        out.append(call('P18', ns, 'exp(x, c<0>)', [sblade(1, 2)], expo(A, 0), 'exp0', tu=ns + '_c', ctx=True))
        out.append(call('P18', ns, 'exp(x, scalar(0.5))', [kvec(n, 1)], expo(A, Fraction(1, 2)), 'exph', tu=ns + '_c', ctx=True))
        # constant arguments have an exact default tolerance
        for x in (cblade(1, 2), cblade(1), expr('c2', 'c<3> * (e(c<1>) ^ e(c<%d>))' % n, 0, lambda x, n=n: {1 | 1 << (n - 1): RV(3)}), mixed(n, 2)):
            out.append(call('P18', ns, 'exp(x)', [x], expo(A, 0), 'exp', tu=ns + '_c', ctx=True))
        if A.orthogonal:
            out.append(call('P18', ns, 'exp(x)', [dyn(n)], expo(A, D), 'exp', tu=ns + '_d', ctx=True))
            out.append(call('P18', ns, 'exp(x)', [dyn(n, 'double', 1, 2)], expo(A, D), 'exp', tu=ns + '_d', ctx=True))
            out.append(call('P18', ns, 'exp(x, y)', [dyn(n), num()], expo(A), 'expt', tu=ns + '_d', ctx=True, pre=lambda c, x, y: [c.le(RV(0), y[0][1][0])]))
        for x in (scal(), num()):
            code = 'gsv::out(o, exp(x));' if x.label == 'scal' else 'gsv::out(o, ga::exp(x, space));'
            out.append(call('P18', ns, code, [x], lambda c, x: {0: c.fn('exp', x[0])}, 'real', tu=ns + '_s', ctx=True))
            out.append(call('P18', ns, 'exp(x, c<0>)' if x.label == 'scal' else 'ga::exp(x, 0.5, space)', [x], lambda c, x: {0: c.fn('exp', x[0])}, 'realt', tu=ns + '_s', ctx=True))
    return uniq(out)
