"""Grade queries and grade extraction."""
from .common import *

BOUNDS = ('dimension <= 5 (grade() itself on at most four components of different grades, because its type grows exponentially); every representation of the argument (full, k-vectors, constants, mixtures, numbers, run-time blades), every real coefficient, every run-time grade from -1 to n+1, '
          'default tolerances and every non-negative run-time tolerance')
DBL = Fraction(1e-8)


def big(c, x, T):
    """grade -> condition that some coefficient of that grade exceeds the tolerance"""
    r = {}
    for k, v in x.items():
        g = ref.grade(k)
        r[g] = c.or_(r.get(g, False), c.lt(T, c.abs(v)))
    return r


def grade_of(tol=None):
    def f(c, x, *t):
        b = big(c, x, t[0][0] if t else RV(tol))
        r = RV(-1)
        for g in b:
            r = c.ite(c.and_(b[g], *[c.not_(b[h]) for h in b if h != g]), RV(g), r)
        return {0: c.ite(c.or_(*b.values()), r, RV(-2))}
    return f


def largest(tol=None):
    def f(c, x, *t):
        b = big(c, x, t[0][0] if t else RV(tol))
        r = RV(-2)
        for g in sorted(b):
            r = c.ite(b[g], RV(g), r)
        return {0: r}
    return f


def take_largest(tol=None):
    def f(c, x, *t):
        b = big(c, x, t[0][0] if t else RV(tol))
        out = {}
        for k, v in x.items():
            g = ref.grade(k)
            out[k] = c.ite(c.and_(b[g], *[c.not_(b[h]) for h in b if h > g]), v, RV(0))
        return out
    return f


def flag(tol):
    def f(c, x):
        g = grade_of(tol)(c, x)[0]
        return {0: c.ite(c.lt(g, RV(0)), g, RV(0))}
    return f


def cases(tier):
    out = []
    nn = lambda c, x, y: [c.le(RV(0), y[0][1][0])]
    spaces = [('ga3e', 3), ('ga2h', 3), ('ga2c', 4), ('ga2e', 2), ('x_s111', 3)]
    if tier == 'thorough':
        spaces += [('ga1e', 1), ('ga4e', 4), ('ga5e', 5), ('ga3m', 5), ('ga3p', 4), ('x_g3', 3)]
    for ns, n in spaces:
        A = SPACES[ns]
        ops = [x for x in unary(n)] + rblade1(n)
        ops += [expr('sum', '$[0] * e(c<1>) + $[1] * (e(c<1>) ^ e(c<%d>)) + c<2>' % n, 2, lambda x, n=n: {0: RV(2), 1: x[0], 1 | 1 << (n - 1): x[1]} if n > 1 else {0: RV(2), 1: x[0]}) if n > 1 else sblade(1),
                expr('zero', 'c<0> * e(c<1>)', 0, lambda x: {0: RV(0)}), expr('diff', 'e(c<1>) - e(c<1>)', 0, lambda x: {0: RV(0)}),
                expr('cst', 'c<3> * e(c<1>) - e(c<%d>) / c<2>' % n, 0, lambda x, n=n: {1: RV(3), 1 << (n - 1): RV(Fraction(-1, 2))}) if n > 1 else cblade(1)]
        if tier != 'thorough' and ns not in ('ga3e', 'ga2e'):
            # none of this depends on the metric
            ops = [x for x in ops if x.label in ('k2', 'mix1', 'c12', 'sum', 'cst', 'dyn', 'dyn1_2', 'scal')]
        for x in ops:
            if x.label == 'full' and n > 3 or x.label == 'mix1' and n > 4:
                continue
            tol = 0 if not x.ins('x') or x.label.startswith(('udyn', 'edyn')) else DBL
            out.append(call('P19', ns, 'gsv::out(o, largest_grade(x));', [x], largest(tol), 'largest', tu=ns + '_l', ctx=True))
            out.append(call('P19', ns, 'gsv::out(o, largest_grade(x, y));', [x, num()], largest(), 'largestt', tu=ns + '_lt', ctx=True, pre=nn))
            out.append(call('P19', ns, 'take_largest_grade(x)', [x], take_largest(tol), 'tlg', tu=ns + '_tl', ctx=True))
            out.append(call('P19', ns, 'take_largest_grade(x, y)', [x, num()], take_largest(), 'tlgt', tu=ns + '_tlt', ctx=True, pre=nn))
            for g in range(-1, n + 2) if tier == 'thorough' or x.label in ('full', 'mix1', 'dyn', 'cst') else (-1, 0, 1, 2):
                out.append(call('P19', ns, 'take_grade(x, c<%d>)' % g, [x], lambda x, g=g, A=A: A.take(x, g), 'take%s' % str(g).replace('-', 'm'), tu=ns + '_k%d' % (g // 3)))
            out.append(call('P19', ns, 'take_grade(x, y)', [x, ival(-1, n + 1)], lambda x, k, A=A: A.take(x, k[0].value()), 'takek', tu=ns + '_tk'))
            out.append(call('P19', ns, 'take_grade(x, scalar(y))', [x, ival(-1, n + 1)], lambda x, k, A=A: A.take(x, k[0].value()), 'takes', tu=ns + '_tk'))
            if x.label == 'full' and n > 2:
                continue
            out.append(call('P19', ns, 'o[0] = (double) (grade_t) grade(x);', [x], grade_of(tol), 'grade', tu=ns + '_g', ctx=True))
            out.append(call('P19', ns, 'o[0] = (double) (int) grade(x).flag();', [x], flag(tol), 'flag', tu=ns + '_g', ctx=True))
            out.append(call('P19', ns, 'o[0] = (double) (grade_t) grade(x, y);', [x, num()], grade_of(), 'gradet', tu=ns + '_gt', ctx=True, pre=nn))
        f = full(n) if n <= 4 else kvec(n, 2)
        # the parts add up to the whole
        out.append(call('P19', ns, ' + '.join('take_grade(x, c<%d>)' % g for g in range(n + 1)), [f], lambda x: x, 'sum', tu=ns + '_s'))
        out.append(call('P19', ns, 'take_grade(gp(x, y), c<2>)', [kvec(n, 1), kvec(n, 1)], A.op, 'gp2', tu=ns + '_s'))
        out.append(call('P19', ns, 'take_grade(gp(x, y), c<0>)', [f, f] if n <= 3 else [kvec(n, 1), f], A.sp_mv, 'gp0', tu=ns + '_s'))
        # a single component above tolerance
        out.append(call('P19', ns, 'o[0] = (double) (grade_t) grade(x, c<2>);', [f if n <= 2 else full(n, first=0, last=1) if n == 3 else kvec(n, 1)], grade_of(2), 'gradec', tu=ns + '_s', ctx=True))
        out.append(call('P19', ns, 'take_largest_grade(x, c<1>)', [f if n <= 3 else kvec(n, 2)], take_largest(1), 'tlgc', tu=ns + '_s', ctx=True))
    return uniq(out)
