"""Operations with an explicit metric space."""
from .common import *
from .P18 import expo
from .P26 import top, DBL

BOUNDS = ('dimension 3 and 4; every operation that accepts a metric space, called from a namespace whose own metric is different, with orthogonal, degenerate and non-orthogonal metrics; '
          'operands of every representation, every real coefficient with the operation defined')


def cases(tier):
    out = []
    # namespace the program is written in, metric given explicitly
    combos_ = [('ga3e', 'x_s111', 3), ('ga3e', 'x_g3', 3), ('x_s120', 'ga2h', 3), ('ga1c', 'ga3e', 3), ('x_g3', 'x_s120', 3), ('ga2h', 'ga1c', 3), ('ga3e', 'ga2p', 3)]
    if tier == 'thorough':
        combos_ += [('ga4e', 'x_s22', 4), ('ga2c', 'ga2m', 4), ('x_s22', 'ga2c', 4), ('ga3p', 'ga4e', 4), ('ga2e', 'x_g2', 2), ('x_g3', 'x_gd', 3)]
    for ns, sp, n in combos_:
        A = SPACES[sp]
        M = sp + '::space'
        f = full(n) if n < 4 else kvec(n, 2)
        k1 = kvec(n, 1)
        add = lambda code, ops, g, tag, **kw: out.append(call('P30', ns, code.replace('M)', M + ')'), ops, g, sp + '_' + tag, tu='%s_%s_%s' % (ns, sp, kw.pop('u', 'a')), headers=(sp,), **kw))
        pairs = [(f, k1), (k1, f), (mixed(n, 0), mixed(n, 1)), (num(), f), (f, scal()), (scal(), cnum(2)), (k1, cblade(1, 2)), (inum(2), k1)]
        if A.orthogonal:
            pairs += [(dyn(n), dyn(n)), (edyn(n), edyn(n)), (dyn(n), num())]
        for fn in ('gp', 'op', 'rp', 'lcont', 'rcont', 'dot', 'hip', 'sp', 'cp'):
            for x, y in pairs:
                if fn == 'rp' and 'num' in (x.label, y.label) or fn == 'rp' and (x.label in ('scal', 'int2') or y.label == 'scal'):
                    continue
                add('%s(x, y, M)' % fn, [x, y], getattr(A, {'sp': 'sp_mv'}.get(fn, fn)) if fn == 'sp' and hasattr(A, 'sp_mv') else getattr(A, fn), fn, u=fn)
        inv = lambda x: not zero(A.rnorm_sqr(x.ref(Probe(), 'x')[0][1]))
        ops = [k1, mixed(n, 1), cblade(1, 2), scal(), sblade(1)] + ([dyn(n), edyn(n)] if A.orthogonal else [])
        one = lambda g: (lambda x: {0: g(x)})
        for x in ops + [f]:
            add('rnorm_sqr(x, M)', [x], one(A.rnorm_sqr), 'nsqr', u='n')
        for x in ops:
            if x.label == 'mix1' or x.label not in ('dyn', 'edyn') and not inv(x):
                continue
            add('inv(x, M)', [x], A.inv, 'inv', u='n', pre=nonzero(A))
            add('igp(y, x, M)', [x, k1], lambda x, y, A=A: A.gp(y, A.inv(x)), 'igp', u='n', pre=nonzero(A, lambda x, y: x))
            if x.label in ('k1', 's1', 'c12', 'scal'):
                N = lambda c, x, A=A: c.sqrt(c.abs(A.rnorm_sqr(x)))
                add('unit(x, M)', [x], lambda c, x, A=A, N=N: {k: v / N(c, x) for k, v in x.items()}, 'unit', u='u', pre=nonzero(A), ctx=True)
                if x.label != 'c12':
                    add('gsv::out(o, rnorm(x, M));', [x], lambda c, x, A=A: {0: c.sqrt(A.rnorm_sqr(x))}, 'rnorm', u='u', ctx=True, pre=lambda c, x, A=A: [c.or_(*[c.and_(g, c.lt(RV(0), A.rnorm_sqr(d))) for g, d in x])])
            if x.label in ('k1', 's1', 'edyn') and not (x.label == 'edyn' and n > 3):
                add('apply_odd_versor(x, y, M)', [x, k1], lambda v, x, A=A: A.gp(A.gp(v, A.involute(x)), A.inv(v)), 'odd', u='v', pre=nonzero(A, lambda v, x: v))
            if x.label in ('c12', 'scal'):
                add('apply_even_versor(x, y, M)', [x, k1], lambda v, x, A=A: A.gp(A.gp(v, x), A.inv(v)), 'even', u='v', pre=nonzero(A, lambda v, x: v))
                add('apply_rotor(x, y, M)', [x, k1], lambda v, x, A=A: A.gp(A.gp(v, x), A.reverse(v)), 'rotor', u='v')
        # numbers and scalar expressions beside multivectors
        for y in (num(), scal(), cnum(2), inum(2)):
            for x in (k1, sblade(1)) + ((edyn(n),) if A.orthogonal and n <= 3 else ()):
                if x.label != 'edyn' and not inv(x):
                    continue
                z = lambda v, x: v
                add('igp(x, y, M)', [y, x], lambda y, x, A=A: A.gp(y, A.inv(x)), 'igpn', u='m', pre=nonzero(A, lambda y, x: x))
                add('igp(x, y, M)', [x, y], lambda x, y, A=A: A.gp(x, A.inv(y)), 'igpr', u='m', pre=nonzero(A, lambda x, y: y))
                add('apply_odd_versor(x, y, M)', [x, y], lambda v, x, A=A: A.gp(A.gp(v, A.involute(x)), A.inv(v)), 'oddn', u='w', pre=nonzero(A, z))
                if y.label != 'int2':
                    add('apply_even_versor(x, y, M)', [y, x], lambda v, x, A=A: A.gp(A.gp(v, x), A.inv(v)), 'evenn', u='w', pre=nonzero(A, z))
                    add('apply_rotor(x, y, M)', [y, x], lambda v, x, A=A: A.gp(A.gp(v, x), A.reverse(v)), 'rotorn', u='w')
            if y.label != 'int2':
                add('inv(x, M)', [y], A.inv, 'invn', u='m', pre=nonzero(A))
                add('rnorm_sqr(x, M)', [y], one(A.rnorm_sqr), 'nsqrn', u='m')
        I = {A.N - 1: RV(1)}
        P = '(pseudoscalar(%s))' % M
        if not zero(A.rnorm_sqr(I)):
            for x in [f, k1, mixed(n, 1)] + ([dyn(n)] if A.orthogonal else []):
                add('dual(x, %s, M)' % P, [x], lambda x, A=A, I=I: A.lcont(x, A.inv(I)), 'dual', u='d')
        for x in [f, k1]:
            add('undual(x, %s, M)' % P, [x], lambda x, A=A, I=I: A.lcont(x, I), 'undual', u='d')
        for x in (k1, cblade(1, 2), sblade(1)):
            r = lambda c, x, A=A: A.rnorm_sqr(x)
            add('o[0] = is_null(x, 0.25, M) ? 1 : 0;', [x], lambda c, x, r=r: {0: c.ite(c.le(c.abs(r(c, x)), RV(Fraction(1, 4))), RV(1), RV(0))}, 'null', u='t', ctx=True)
            add('o[0] = is_unit(x, 0.25, M) ? 1 : 0;', [x], lambda c, x, r=r: {0: c.ite(c.le(c.abs(c.abs(r(c, x)) - RV(1)), RV(Fraction(1, 4))), RV(1), RV(0))}, 'unitq', u='t', ctx=True)
        # the delta product and the exponential
        q = Fraction(1, 4)
        b12 = sblade(1, 2)
        for x, y in [(k1, k1), (b12, k1), (k1, num()), (num(), k1), (cnum(2), k1), (mixed(n, 2), k1), (scal(), k1)] + ([(edyn(n), b12)] if A.orthogonal else []):
            add('dp(x, y, 0.25, M)', [x, y], top(A, q), 'dp', u='p', ctx=True)
            add('dp(x, y, M)', [x, y], top(A, DBL), 'dpd', u='p', ctx=True)
        for x in (k1, b12, kvec(n, n), cblade(1, 2)) + ((dyn(n),) if A.orthogonal else ()):
            add('exp(x, 0.25, M)', [x], expo(A, q), 'exp', u='p', ctx=True)
            if x.label != 'c12':
                add('exp(x, M)', [x], expo(A, Fraction(1e-8)), 'expd', u='p', ctx=True)
        add('ga::exp(x, 0.25, M)', [num()], lambda c, x: {0: c.fn('exp', x[0])}, 'expn', u='p', ctx=True)
        add('exp(x, M)', [scal()], lambda c, x: {0: c.fn('exp', x[0])}, 'exps', u='p', ctx=True)
    return uniq(out)
