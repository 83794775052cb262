"""Operators stand for the documented named operations."""
from .common import *

BOUNDS = ('dimension <= 4; every overloaded operator with every pairing of multivectors, run-time blades, scalar expressions, numbers and constants on both sides; '
          'orthogonal and non-orthogonal metrics; every real coefficient (divisors with non-zero squared reverse norm) and every run-time basis blade')


def cases(tier):
    out = []
    spaces = [('ga3e', 3), ('ga2h', 3), ('x_s111', 3), ('ga1c', 3), ('x_g3', 3), ('ga2e', 2), ('ga2p', 3), ('ga1m', 3)]
    if tier == 'thorough':
        spaces += [('ga4e', 4), ('ga1e', 1), ('ga2c', 4), ('ga3p', 4), ('x_s22', 4), ('x_g2', 2), ('x_gd', 3)]
    for ns, n in spaces:
        A = SPACES[ns]
        f = full(n) if n < 4 else kvec(n, 2)
        ops = [('*', 'gp'), ('^', 'op'), ('<', 'lcont'), ('>', 'rcont'), ('|', 'dot')]
        mv = [f, kvec(n, 1)] + ([mixed(n, 1), cblade(1, 2), mixed(n, 2)] if n > 1 else [])
        s = [num(), inum(3), cnum(-2), scal()]
        pairs = [(a, b) for a in mv for b in mv if a is not b or a.label != 'full' or n < 3] + [(a, b) for a in s for b in mv[:3]] + [(b, a) for a in s for b in mv[:3]]
        pairs += [(a, scal()) for a in s] + [(scal(), a) for a in s[:3]] + [(cnum(2), num()), (inum(2), cnum(5)), (cnum(-2), cnum(5))]
        if A.orthogonal:
            pairs += [(dyn(n), dyn(n)), (edyn(n), edyn(n)), (dyn(n), num()), (num(), dyn(n)), (cnum(3), dyn(n)), (dyn(n), scal()), (inum(2), edyn(n)), (edyn(n), cblade(1)), (kvec(n, 1), edyn(n)), (cblade(n), dyn(n))]
        for o, fn in ops:
            for i, (x, y) in enumerate(pairs):
                if tier != 'thorough' and ns not in ('ga3e', 'x_g3') and i % 3 != hash_(ns, o) % 3 or n > 3 and 'full' in (x.label, y.label):
                    continue
                out.append(call('P29', ns, 'x %s y' % o, [x, y], getattr(A, fn), fn, tu='%s_%s%d' % (ns, fn, i // 25)))
        if ns in ('ga3e', 'ga1c', 'ga2e', 'x_s111'):
            for x in [f, kvec(n, 1), scal(), cnum(2), cblade(1)] + ([mixed(n, 1), mixed(n, 3), cblade(1, 2)] if n > 1 else []) + ([dyn(n), edyn(n), esum(n)] if A.orthogonal else []):
                for o, g, tag in (('~', A.reverse, 'rev'), ('-', A.neg, 'neg'), ('+', lambda x: x, 'pos')):
                    out.append(call('P29', ns, '%sx' % o, [x], g, tag, tu=ns + '_un'))
        nz = nonzero(A, lambda x, y: y)
        E = lambda x, y, A=A: A.gp(x, A.inv(y))
        inv = lambda x: not zero(A.rnorm_sqr(x.ref(Probe(), 'x')[0][1]))
        div = [(a, b) for a in (mv[1:3] + s) for b in [kvec(n, 1), scal(), cnum(-2), num(), inum(3), cblade(1)] + ([cblade(1, 2)] if n > 1 else []) if not (a.label in ('num', 'int3') and b.label in ('num', 'int3', 'c_m2') and a.label != b.label)
               and not (a.label in ('num', 'int3') and b.label in ('num', 'int3')) and inv(b)]
        if A.orthogonal:
            div += [(kvec(n, 1), dyn(n)), (dyn(n), num()), (num(), dyn(n)), (edyn(n), cnum(2)), (inum(2), edyn(n)), (scal(), edyn(n))]
        for i, (x, y) in enumerate(div):
            if tier == 'thorough' or ns in ('ga3e', 'x_g3') or i % 2:
                out.append(call('P29', ns, 'x / y', [x, y], E, 'igp', tu='%s_div%d' % (ns, i // 20), pre=nz))
    # precedence and associativity are those of C++: products group from the left
    A = SPACES['ga3e']
    k = kvec(3, 1)
    for code, g in (('x * y * z', lambda x, y, z: A.gp(A.gp(x, y), z)), ('x * (y ^ z)', lambda x, y, z: A.gp(x, A.op(y, z))), ('(x ^ y) * z', lambda x, y, z: A.gp(A.op(x, y), z)), ('(x < (y ^ z)) + y', lambda x, y, z: A.add(A.lcont(x, A.op(y, z)), y)),
                    ('x - y - z', lambda x, y, z: A.sub(A.sub(x, y), z)), ('(x ^ y ^ z) > ~z', lambda x, y, z: A.rcont(A.op(A.op(x, y), z), z)), ('-x * y | z', lambda x, y, z: A.dot(A.neg(A.gp(x, y)), z))):
        out.append(call('P29', 'ga3e', code, [k, k, k], g, 'chain%d' % len(out), tu='ga3e_chain'))
    return uniq(out)


def hash_(*xs):
    return sum(ord(ch) for x in xs for ch in x)
