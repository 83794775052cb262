"""is_zero, is_null and is_unit."""
from .common import *

BOUNDS = ('dimension <= 4 (5 for k-vectors); every coefficient an arbitrary real, every tolerance an arbitrary non-negative real, every run-time basis blade an arbitrary bitset of the space; default and given tolerances, constant and run-time')
D = Fraction(1e-8)


def within(c, vals, tol):
    return c.ite(c.and_(*[c.le(c.abs(v), tol) for v in vals]) if vals else True, RV(1), RV(0))


def flag(A, kind):
    def f(c, x, t):
        tol = t if isinstance(t, RV) else t[0] if isinstance(t, dict) else RV(t)
        if kind == 'zero':
            return {0: within(c, [v for k, v in sorted(x.items())], tol)}
        r = A.rnorm_sqr(x)
        r = r[0] if isinstance(r, dict) else r
        return {0: within(c, [r if kind == 'null' else c.abs(r) - RV(1)], tol)}
    return f


def distinct(c, x, *t):
    """the two run-time basis blades of dyn2 are not the same one"""
    a, b = c.i('xb')
    return [c.not_(c.same_u(a, b))]


def coincide(c, x, *t):
    a, b = c.i('xb')
    return [c.same_u(a, b)]


def tolpos(c, x, t):
    return [c.le(RV(0), t[0][1][0])]


def cases(tier):
    out = []
    spaces = [('ga3e', 3), ('ga2h', 3), ('ga1m', 3), ('ga2p', 3), ('x_s111', 3), ('ga1c', 3), ('x_g3', 3), ('ga2e', 2)]
    if tier == 'thorough':
        spaces += [('ga1e', 1), ('ga4e', 4), ('ga2m', 4), ('ga3p', 4), ('ga2c', 4), ('x_s22', 4), ('x_g4', 4), ('ga3m', 5), ('ga3c', 5)]
    for ns, n in spaces:
        A = SPACES[ns]
        ops = [full(n) if n <= 4 else kvec(n, 2), kvec(n, 1), kvec(n, 2), mixed(n, 0), mixed(n, 1), mixed(n, 3), scal(), sblade(1, 2), cblade(1, 2), cblade(n), cnum(0), cnum(2),
               expr('half', '(c<1> / c<2>) * e(c<1>)', 0, lambda x: {1: RV(Fraction(1, 2))}), expr('tiny', '(c<1> / c<1073741824>) * e(c<2>) + $[0] * e(c<1>)', 1, lambda x: {2: RV(Fraction(1, 2 ** 30)), 1: x[0]})]
        if A.orthogonal:
            ops += [dyn(n), edyn(n), udyn(n), dyn(n, 'double', 1, 2)] + ([dyn2(n)] if n <= 3 else [])
        for x in ops:
            dp = {'pre': distinct} if x.label == 'dyn2' else {}
            sure = lambda t: 'o[0] = %s ? 1 : 0;' % t
            const = x.label.startswith('c') or x.label in ('edyn', 'half') or x.label.startswith('udyn')
            dflt = RV(0) if const else RV(D)    # exact arithmetic when no coefficient is a floating-point number
            if ns in ('ga3e', 'ga1c', 'x_s111') and x.label != 'half':
                out.append(call('P20', ns, sure('is_zero(x)'), [x], lambda c, x, A=A, t=dflt: flag(A, 'zero')(c, x, t), 'zero', tu=ns + '_z', ctx=True, **dp))
                out.append(call('P20', ns, sure('is_zero(x, 0.25)'), [x], lambda c, x, A=A: flag(A, 'zero')(c, x, Fraction(1, 4)), 'zero_q', tu=ns + '_z', ctx=True, **dp))
                if not const and not x.label.startswith('mix'):    # tolerances are converted to the type of each coefficient, integral constants included
                    out.append(call('P20', ns, sure('is_zero(x, y)'), [x, num()], flag(A, 'zero'), 'zero_t', tu=ns + '_z', ctx=True, **dp))
                    out.append(call('P20', ns, sure('is_zero(x, y)'), [x, scal()], flag(A, 'zero'), 'zero_s', tu=ns + '_z', ctx=True, **dp))
                    out.append(call('P20', ns, sure('is_zero(x, c<2>)'), [x], lambda c, x, A=A: flag(A, 'zero')(c, x, 2), 'zero_c', tu=ns + '_z', ctx=True, **dp))
                    out.append(call('P20', ns, sure('is_zero(x - x)'), [x], lambda c, x: {0: RV(1)}, 'zero_d', tu=ns + '_z', ctx=True) if x.label not in ('dyn', 'dyn2', 'dyn1_2') else
                               call('P20', ns, sure('is_zero(c<0> * x)'), [x], lambda c, x: {0: RV(1)}, 'zero_d', tu=ns + '_z', ctx=True))
            if x.label in ('dyn2', 'tiny'):
                continue
            out.append(call('P20', ns, sure('is_null(x, 0.25)'), [x], lambda c, x, A=A: flag(A, 'null')(c, x, Fraction(1, 4)), 'null_q', tu=ns + '_n', ctx=True))
            out.append(call('P20', ns, sure('is_unit(x, 0.25)'), [x], lambda c, x, A=A: flag(A, 'unit')(c, x, Fraction(1, 4)), 'unit_q', tu=ns + '_n', ctx=True))
            if not const and not (ns == 'ga1c' and x.label in ('s12', 'mix3')):
                out.append(call('P20', ns, sure('is_null(x, y)'), [x, num()], flag(A, 'null'), 'null_t', tu=ns + '_n', ctx=True, pre=tolpos))
                out.append(call('P20', ns, sure('is_unit(x, y)'), [x, num()], flag(A, 'unit'), 'unit_t', tu=ns + '_n', ctx=True, pre=tolpos))
    # the same run-time basis blade stored twice: the coefficients count together
    out.append(call('P20', 'ga3e', 'o[0] = is_zero(x, 0.25) ? 1 : 0;', [dyn2(3)], lambda c, x: flag(SPACES['ga3e'], 'zero')(c, x, Fraction(1, 4)), 'zero_twice', tu='ga3e_twice', ctx=True, pre=coincide))
    return uniq(out)
