"""Lazy evaluation gives what step by step evaluation gives."""
from .programs import *

BOUNDS = ('generated programs of up to 8 operations over three operands in dimension <= 4; every coefficient an arbitrary real, '
          'run-time basis blades arbitrary bitsets of the space; lazy contexts nested up to two deep')


def OUTER(A):
    return {'gp($, x)': lambda r, e: A.gp(r, e['x']), '($ + y)': lambda r, e: A.add(r, e['y']), 'op(z, $)': lambda r, e: A.op(e['z'], r),
            'lcont(y, $) - $': lambda r, e: A.sub(A.lcont(e['y'], r), r), 'reverse($) + gp($, z)': lambda r, e: A.add(A.reverse(r), A.gp(r, e['z'])),
            'sp($, x) + $': lambda r, e: A.add(A.sp_mv(r, e['x']), r)}


def cases(tier):
    rng = random.Random(11)
    out = []
    plan = [('ga3e', 3, 14), ('ga2e', 2, 8), ('x_s111', 3, 6), ('ga1c', 3, 6), ('ga2h', 3, 4)]
    if tier == 'thorough':
        plan = [(a, b, c * 5) for a, b, c in plan] + [('ga4e', 4, 20), ('ga1m', 3, 20), ('ga2p', 3, 20), ('x_g3', 3, 20)]
    for ns, n, cnt in plan:
        A = SPACES[ns]
        for i in range(cnt):
            pools = [full(n), kvec(n, 1), kvec(n, min(2, n)), mixed(n, 0), mixed(n, 1), mixed(n, 3), sblade(2), cblade(1, 2), scal(), num()]
            ops = [rng.choice(pools[:7]), rng.choice(pools), rng.choice(pools[:8])]
            if sum(o.label == 'full' for o in ops) > 1 and n > 3:
                ops[0] = kvec(n, 1)
            p = gen(rng, A, ['x', 'y', 'z'], 2)
            q = gen(rng, A, ['x', 'y', 'z'], 2)
            f = lambda x, y, z, p=p: p.f({'x': x, 'y': y, 'z': z})
            # operations on two bare numbers are not library calls
            if ops[1].label == 'num':
                ops[1] = scal()
            sfx = '%d_%d' % (i // 3, n)
            out.append(call('P11', ns, 'gsv::out(o, %s);' % p.code, ops, f, 'eager%d' % i, tu=ns + '_p' + sfx))
            out.append(call('P11', ns, lazy_code(p.code, 'xyz'), ops, f, 'lazy%d' % i, tu=ns + '_p' + sfx))
            for part, rest in (('x', 'yz'), ('yz', 'x'), ('z', 'xy'))[i % 3:i % 3 + 1]:      # only some operands are lazy
                if any(v in p.code for v in part) and any(v in p.code for v in rest):
                    out.append(call('P11', ns, lazy_partial_code(p.code, part, rest), ops, f, 'partial%d' % i, tu=ns + '_q' + sfx))
            if i < 4:       # the context outlives the operands it was made from
                temp = ', '.join('+%s' % v for v in 'xyz')
                out.append(call('P11', ns, """auto lazy = make_lazy_context(%s);
    auto x1 = lazy.template argument<0>(); auto y1 = lazy.template argument<1>(); auto z1 = lazy.template argument<2>();
    gsv::out(o, lazy.eval(%s));""" % (temp, rename(p.code, {v: v + '1' for v in 'xyz'})), ops, f, 'temporaries%d' % i, tu=ns + '_p' + sfx))
            outer = rng.choice(sorted(OUTER(A)))
            fo = OUTER(A)[outer]
            fn = lambda x, y, z, q=q, fo=fo, A=A: fo(q.f({'x': x, 'y': y, 'z': z}), {'x': x, 'y': y, 'z': z})
            out.append(call('P11', ns, lazy_nested_code(outer, q.code, 'xyz'), ops, fn, 'nested%d' % i, tu=ns + '_p' + sfx))
    for ns, n in (('ga3e', 3), ('ga2h', 2)):
        A = SPACES[ns]
        c2, sc = (lambda k: lambda x: {0: RV(k)}), None
        out.append(call('P11', ns, """auto [lazy, k] = make_lazy_context_tuple(c<2>);
    gsv::out(o, lazy.eval(gp(k * x, x)));""", [full(n)], lambda x, A=A: A.scale(2, A.gp(x, x)), 'no_inputs', tu=ns + '_x'))
        out.append(call('P11', ns, """auto [lazy, a, b] = make_lazy_context_tuple(scalar(x_[0]), scalar(y_[0]));
    gsv::out(o, lazy.eval((a + b) * e(c<1>) + (a * b) * e(c<2>)));""", [num(), num()],
                        lambda x, y: {1: x[0] + y[0], 2: x[0] * y[0]}, 'temporary_scalars', tu=ns + '_x'))
        out.append(call('P11', ns, """auto [lazy, a, b] = make_lazy_context_tuple(x + y, x - y);
    gsv::out(o, lazy.eval(gp(a, b)));""", [full(n), full(n)], lambda x, y, A=A: A.gp(A.add(x, y), A.sub(x, y)), 'temporary_sums', tu=ns + '_x'))
        if ns != 'ga3e' and tier != 'thorough':
            continue
        # library functions applied to lazy arguments together with values which are not lazy
        D = Fraction(1e-8)
        lz1 = lambda e: 'auto [lazy, a] = make_lazy_context_tuple(x);\n    gsv::out(o, lazy.eval(%s));' % e
        lz2 = lambda e: 'auto [lazy, a] = make_lazy_context_tuple(y);\n    gsv::out(o, lazy.eval(%s));' % e
        f, k1 = full(n), kvec(n, 1)
        bv = sblade(1, 2)
        nzy = nonzero(A, lambda x, y: y)
        for x in (f, k1, dyn(n), mixed(n, 1), sblade(1, 2)):
            out.append(call('P11', ns, lz1('take_grade(a, 1)'), [x], lambda x, A=A: A.take(x, 1), 'take', tu=ns + '_f'))
            out.append(call('P11', ns, lz1('take_grade(a, 2) + c<2> * take_grade(a, c<1>)'), [x], lambda x, A=A: A.add(A.take(x, 2), A.scale(2, A.take(x, 1))), 'take2', tu=ns + '_f'))
            out.append(call('P11', ns, lz1('gp(a, 3.0) - a / 2.0'), [x], lambda x, A=A: A.scale(Fraction(5, 2), x), 'scale', tu=ns + '_f'))
            out.append(call('P11', ns, lz1('op(a, x) + gp(x, a)'), [x], lambda x, A=A: A.add(A.op(x, x), A.gp(x, x)), 'itself', tu=ns + '_f') if x.label != 'dyn' else call('P11', ns, lz1('gp(a, x)'), [x], lambda x, A=A: A.gp(x, x), 'itself', tu=ns + '_f'))
            out.append(call('P11', ns, lz2('gp(gp(x, a), x)'), [k1 if x.label != 'dyn' else sblade(2), x], lambda x, y, A=A: A.gp(A.gp(x, y), x), 'sandwich', tu=ns + '_f'))
            out.append(call('P11', ns, lz2('lcont(x, a) + c<2> * a'), [k1, x], lambda x, y, A=A: A.add(A.lcont(x, y), A.scale(2, y)), 'lc', tu=ns + '_f')
                       if x.label != 'dyn' else call('P11', ns, lz2('lcont(x, a)'), [sblade(1), x], A.lcont, 'lc', tu=ns + '_f'))
        # operands that store several run-time basis blades
        d2 = dyn2(n)
        for tag, code, fn in (('op', 'op(a, e(c<2>))', lambda x, A=A: A.op(x, {2: RV(1)})), ('gp', 'gp(c<3> * e(c<1>), a)', lambda x, A=A: A.gp({1: RV(3)}, x)),
                              ('rev', 'reverse(a) * c<2>', lambda x, A=A: A.scale(2, A.reverse(x))), ('neg', '-a', A.neg), ('scale', 'x_[0] * a', None)):
            if fn is None:
                out.append(call('P11', ns, lz1('y * a'), [d2, num()], lambda x, y, A=A: A.scale(y[0], x), 'd2' + tag, tu=ns + '_d2'))
                out.append(call('P11', ns, 'auto [lazy, b, a] = make_lazy_context_tuple(y, x);\n    gsv::out(o, lazy.eval(b * a));', [d2, dyn(n, 'double', 1, 1)], lambda x, y, A=A: A.gp(y, x), 'd2both', tu=ns + '_d2'))
            else:
                out.append(call('P11', ns, lz1(code), [d2], fn, 'd2' + tag, tu=ns + '_d2'))
        from .P18 import expo
        from .P19 import take_largest, largest
        for x in (bv, k1):
            out.append(call('P11', ns, lz1('exp(a)'), [x], expo(A, D), 'exp', tu=ns + '_t', ctx=True))
            out.append(call('P11', ns, 'auto [lazy, a] = make_lazy_context_tuple(x);\n    gsv::out(o, lazy.eval(exp(y * a)));', [x, num()], lambda c, x, y, A=A: expo(A, D)(c, A.scale(y[0], x)), 'expy', tu=ns + '_t', ctx=True))
        out.append(call('P11', ns, lz2('apply_odd_versor(x, a)'), [k1, k1], lambda x, y, A=A: A.gp(A.gp(x, A.involute(y)), A.inv(x)), 'versor', tu=ns + '_v', pre=nonzero(A, lambda x, y: x)))
        out.append(call('P11', ns, lz2('apply_odd_versor(a, x)'), [k1, k1], lambda x, y, A=A: A.gp(A.gp(y, A.involute(x)), A.inv(y)), 'versor2', tu=ns + '_v', pre=nzy))
        out.append(call('P11', ns, lz2('igp(x, a)'), [k1, k1], lambda x, y, A=A: A.gp(x, A.inv(y)), 'igp', tu=ns + '_v', pre=nzy))
        for x in (f if n <= 2 else full(n, first=0, last=1), k1, dyn(n), mixed(n, 1)):
            out.append(call('P11', ns, lz1('take_largest_grade(a)'), [x], take_largest(D), 'tlg', tu=ns + '_g', ctx=True))
            out.append(call('P11', ns, lz1('largest_grade(a, 0.25)'), [x], largest(Fraction(1, 4)), 'largest', tu=ns + '_g', ctx=True))
        # contexts nested inside a function that receives lazy arguments, made from a mixture of them and of values
        out.append(call('P11', ns, """auto inner = [&](auto const &a) { auto [l2, b, w] = make_lazy_context_tuple(a, y); return l2.eval(gp(b, w) + op(w, b)); };
    auto [lazy, a] = make_lazy_context_tuple(x);
    gsv::out(o, lazy.eval(gp(inner(a), a) - y));""", [k1, k1], lambda x, y, A=A: A.sub(A.gp(A.add(A.gp(x, y), A.op(y, x)), x), y), 'inner', tu=ns + '_n'))
        out.append(call('P11', ns, """auto inner = [&](auto const &a, auto const &s) { auto [l2, b, w, t] = make_lazy_context_tuple(a, y, s); return l2.eval(t * gp(b, w) + z * b); };
    auto [lazy, a] = make_lazy_context_tuple(x);
    gsv::out(o, lazy.eval(inner(inner(a, sp(a, a)), scalar(z))));""", [k1, k1, num()],
                        lambda x, y, z, A=A: (lambda inner: inner(inner(x, A.sp(x, x)), z[0]))(lambda b, t: A.add(A.scale(t, A.gp(b, y)), A.scale(z[0], b))), 'inner2', tu=ns + '_n'))
    return uniq(out)
