"""Addition, subtraction, negation and multiplication by scalars."""
from .common import *

BOUNDS = 'dimension <= 5; every coefficient an arbitrary real; operands with compile-time basis blades, sums of up to three run-time basis blades with each other and with anything else, sign changes and scaling of run-time basis blades'


def cases(tier):
    out = []
    A = SPACES['ga3e']
    for code, f, tag in (('x + y', A.add, 'add'), ('x - y', A.sub, 'sub')):
        for i, (x, y) in enumerate(shapes(3) + numbers(3)):
            out.append(call('P10', 'ga3e', code, [x, y], f, tag, tu='ga3e_%s%d' % (tag, i // 8)))
        for ns, n in (('ga5e', 5), ('ga2e', 2), ('ga2c', 4), ('ga3p', 4), ('ga3m', 5), ('x_g3', 3)):
            for x, y in ((full(n), full(n)), (mixed(n, 0), mixed(n, 1)), (kvec(n, 1), kvec(n, 2)), (num(), kvec(n, 2))):
                out.append(call('P10', ns, code, [x, y], f, tag, tu=ns + '_' + tag))
    for code, f, tag in (('-x', A.neg, 'neg'), ('+x', lambda x: x, 'pos')):
        for x in unary(3) + rblade1(3):
            if x.label in ('num', 'int3'):
                continue
            out.append(call('P10', 'ga3e', code, [x], f, tag, tu='ga3e_un'))
        out.append(call('P10', 'ga3c', code, [full(5)], f, tag, tu='ga3c_un'))
    sc = lambda a, x: {k: a[0] * v for k, v in x.items()}
    for s in (num(), scal(), cnum(-3), cnum(0), inum(2)):
        for x in (full(3), kvec(3, 2), mixed(3, 0), mixed(3, 1), mixed(3, 2), dyn(3), edyn(3), cblade(1, 3), sblade(2)):
            if s.label == 'c_0' and x.label in ('dyn', 'edyn'):
                pass
            out.append(call('P10', 'ga3e', 'x * y', [s, x], sc, 'smul', tu='ga3e_sm' + s.label))
            out.append(call('P10', 'ga3e', 'x * y', [x, s], lambda x, a: sc(a, x), 'muls', tu='ga3e_ms' + s.label))
    # run-time basis blades
    for i, (x, y) in enumerate([(dyn(3), dyn(3)), (edyn(3), edyn(3)), (udyn(3), dyn(3)), (dyn(3), udyn(3)), (edyn(3), dyn(3)), (dsum(3), dyn(3)), (dyn(3), full(3)), (full(3), dyn(3)), (edyn(3), kvec(3, 1)),
                                (cblade(1), edyn(3)), (edyn(3), sblade(1, 2)), (esum(3), kvec(3, 1)), (dsum(3), mixed(3, 1)), (dyn(3), num()), (cnum(2), esum(3)), (esum(3), esum(3)), (udyn(3), udyn(3)),
                                (dyn(3, 'double', 1, 2), dyn(3, 'double', 1, 2)), (dyn(3, 'double', 1, 2), dyn(3, 'double', 0, 1)), (dyn2(3), dyn(3)), (edyn(3), esum(3))]):
        for code, f, tag in (('x + y', A.add, 'add'), ('x - y', A.sub, 'sub')):
            out.append(call('P10', 'ga3e', code, [x, y], f, tag, tu='ga3e_rb%d' % (i // 4)))
    for x in (dsum(3), esum(3), esum(3, '-'), dsum(3, 3, 0, 1), dyn2(3)):
        out.append(call('P10', 'ga3e', 'x + x', [x], lambda x: A.scale(2, x), 'double', tu='ga3e_rs'))
        out.append(call('P10', 'ga3e', '-x', [x], A.neg, 'neg', tu='ga3e_rs'))
        out.append(call('P10', 'ga3e', '3 * x', [x], lambda x: A.scale(3, x), 'thrice', tu='ga3e_rs'))
        out.append(call('P10', 'ga3e', 'x - x', [x], lambda x: {}, 'cancel', tu='ga3e_rs'))
    # chains, cancellations and repeated terms
    three = [full(3), full(3), full(3)]
    a3 = lambda x, y, z: A.sub(A.add(x, y), A.add(z, x))
    out.append(call('P10', 'ga3e', 'x + y - (z + x)', three, a3, 'chain', tu='ga3e_ch'))
    out.append(call('P10', 'ga3e', 'x - x', [full(3)], lambda x: {}, 'cancel', tu='ga3e_ch'))
    out.append(call('P10', 'ga3e', 'x + x + x', [mixed(3, 1)], lambda x: A.scale(3, x), 'triple', tu='ga3e_ch'))
    out.append(call('P10', 'ga3e', 'y * x - x * y + (-x) + x', [mixed(3, 1), num()], lambda x, y: {}, 'dist', tu='ga3e_ch'))
    out.append(call('P10', 'ga3e', 'c<2> * x - x - x', [full(3)], lambda x: {}, 'c2', tu='ga3e_ch'))
    out.append(call('P10', 'ga3e', 'x / y', [full(3), num()], lambda x, y: {k: v / y[0] for k, v in x.items()}, 'div', tu='ga3e_ch', pre=lambda c, x, y: [c.ne(y[0][1][0], RV(0))]))
    out.append(call('P10', 'ga3e', 'x / y', [full(3), cnum(4)], lambda x, y: {k: v * Fraction(1, 4) for k, v in x.items()}, 'div', tu='ga3e_ch'))
    out.append(call('P10', 'ga3e', 'x / y', [mixed(3, 1), inum(3)], lambda x, y: {k: v * Fraction(1, 3) for k, v in x.items()}, 'div', tu='ga3e_ch'))
    out.append(call('P10', 'ga3e', 'x / y', [num(), scal()], lambda x, y: {k: v / y[0] for k, v in x.items()}, 'div', tu='ga3e_ch', pre=lambda c, x, y: [c.ne(y[0][1][0], RV(0))]))
    return out
