"""Basis blades of large spaces: the operands are single scaled basis blades whose bitsets are symbolic, and the reference works on their bits."""
from .common import *

P, Q, R = 5, 4, 3
N = P + Q + R
NEG = ((1 << Q) - 1) << P
NUL = ((1 << R) - 1) << (P + Q)
MASK = None     # the run-time basis blades range over the subsets of this one
TAG = 'big'


def xor(*v):
    r = False
    for a in v:
        if a is True or a is False:
            r = (not r if a else r) if isinstance(r, bool) else (z3.Not(r) if a else r)
        elif isinstance(r, bool):
            r = z3.Not(a) if r else a
        else:
            r = z3.Xor(r, a)
    return r


def known(x, i):
    """the bit, as a Boolean of Python where it does not depend on the operands"""
    b = z3.simplify(z3.Extract(i, i, x))
    return b.as_long() == 1 if z3.is_bv_value(b) else z3.Extract(i, i, x) == 1


class Bits:
    """the bits of a basis blade, known or symbolic"""

    def __init__(self, c, x):
        self.c, self.x = c, x
        self.b = [bool(x >> i & 1) for i in range(N)] if isinstance(x, int) else [known(x, i) for i in range(N)]

    def __getitem__(self, i):
        return self.b[i]

    def any(self, mask=-1):
        return self.c.or_(*[self.b[i] for i in range(N) if mask >> i & 1])

    def odd(self, mask=-1):
        return xor(*[self.b[i] for i in range(N) if mask >> i & 1])

    def grade(self):
        if isinstance(self.x, int):
            return ref.grade(self.x)
        return sum((z3.ZeroExt(7, z3.Extract(i, i, self.x)) for i in range(N)), z3.BitVecVal(0, 8))

    def pair(self):
        """whether the number of pairs of basis vectors is odd: grade * (grade - 1) / 2"""
        g = self.grade()
        return bool(g >> 1 & 1) if isinstance(g, int) else z3.Extract(1, 1, g) == 1


def swaps(c, a, b):
    return xor(*[c.and_(a[i], b[j]) for j in range(N) for i in range(j + 1, N)])


def product(kind):
    def f(c, a, b):
        common, res = Bits(c, a.x & b.x), a.x ^ b.x
        odd = swaps(c, a, b)
        sub = lambda u, v: Bits(c, u.x & ~v.x)
        if kind == 'op':
            return c.not_(common.any()), odd, a.x | b.x
        if kind == 'rp':
            full = (1 << N) - 1
            r = common
            u, v = Bits(c, a.x ^ r.x), Bits(c, b.x ^ r.x)
            return c.not_(Bits(c, full & ~(a.x | b.x)).any()), swaps(c, u, v), r.x
        odd = xor(odd, common.odd(NEG))
        valid = {'gp': True, 'lcont': c.not_(sub(a, b).any()), 'rcont': c.not_(sub(b, a).any()), 'sp': c.not_(Bits(c, res).any())}
        valid['dot'] = c.or_(valid['lcont'], valid['rcont'])
        valid['cp'] = xor(swaps(c, a, b), swaps(c, b, a))
        valid['hip'] = c.and_(valid['dot'], a.any(), b.any())
        return c.and_(valid[kind], c.not_(common.any(NUL))), odd, res
    return f


def unary_sign(kind):
    def f(c, a):
        g = a.odd()
        r = a.pair()
        return True, {'reverse': r, 'involute': g, 'conjugate': xor(r, g)}[kind], a.x
    return f


def run(lo=0, hi=None):
    hi = N if hi is None else hi
    def decl(v):
        return '    scaled_basis_blade_t<double, %d, %d> const %s(make_sequential_storage(%s_[0]), make_sequential_storage((bitset_t) (%sb[0]%s)));\n' % (lo, hi, v, v, v, '' if MASK is None else ' & %dull' % MASK)

    def pre(c, v):
        b = c.i(v + 'b')[0]
        r = [c.ult(b, 1 << N) if MASK is None else (b & ~MASK == 0 if isinstance(b, int) else (b & z3.BitVecVal(~MASK & (1 << 64) - 1, b.size())) == 0)]
        if (lo, hi) != (0, N):
            g = Bits(c, b).grade()
            r.append(lo <= g <= hi if isinstance(g, int) else z3.And(z3.UGE(g, lo), z3.ULE(g, hi)))
        return r
    return ('run' if (lo, hi) == (0, N) else 'run%d_%d' % (lo, hi)), decl, lambda v: {v + '_': ('d', 1), v + 'b': ('u', 1)}, lambda c, v: (c.i(v + '_')[0], c.i(v + 'b')[0] if MASK is None else c.i(v + 'b')[0] & MASK), pre


def con(*idx):
    bits = sum(1 << (i - 1) for i in idx)
    blade = 'e(c<%d>)' % idx[0]
    for i in idx[1:]:
        blade = 'op(%s, e(c<%d>), mtr)' % (blade, i)
    return 'c' + '_'.join(map(str, idx)), lambda v: '    auto const %s = gp(scalar(%s_[0]), %s, mtr);\n' % (v, v, blade), lambda v: {v + '_': ('d', 1)}, lambda c, v: (c.i(v + '_')[0], bits), lambda c, v: []


def case(prop, code, tag, ops, f):
    names = ['x', 'y'][:len(ops)]
    ins, body = {}, '    signed_metric_space<%d, %d, %d> const mtr;\n' % (P, Q, R)
    for (lab, decl, i, val, pre), v in zip(ops, names):
        ins.update(i(v))
        body += decl(v)
    body += '    gsv::single(o, r, %s);' % code

    def pre_(c):
        return [q for (lab, decl, i, val, pre), v in zip(ops, names) for q in pre(c, v)]

    def post(c):
        vs = [val(c, v) for (lab, decl, i, val, pre), v in zip(ops, names)]
        valid, odd, res = f(c, *[Bits(c, b) for s, b in vs])
        s = RV(1)
        for x, _ in vs:
            s = s * x
        if isinstance(odd, bool):
            s = -s if odd else s
        else:
            s = c.ite(odd, -s, s)
        if isinstance(valid, bool):
            s = s if valid else RV(0)
        else:
            s = c.ite(valid, s, RV(0))
        c.eq('coefficient', c.o('o')[0], s)
        if 'cp(' not in code:
            c.true('one component', c.le(c.o('o')[1], RV(1)), (c.o('o')[1], 1))
        got = c.o('r')[0]
        same = (int(got) == res) if isinstance(got, int) and isinstance(res, int) else sym_eq(got, res)
        c.true('basis blade', c.or_(c.not_(valid), same), (got, res))
    return Case('%s_%s_%s_%s' % (prop, TAG, tag, '_'.join(o[0] for o in ops)), 'ga3e', body, ins, {'o': ('d', 2), 'r': ('i', 1)}, post, pre=pre_, what='%s on (%s) in a space of signature (%d, %d, %d)' % (code, ', '.join(o[0] for o in ops), P, Q, R), tu='big_' + tag)


def sym_eq(a, b):
    a, b = [z3.BitVecVal(v, 64) if isinstance(v, int) else v for v in (a, b)]
    return a == b


PAIRS = [(run(), run()), (run(0, 7), run(5, 12)), (run(2, 3), run(4, 9)), (run(6, 6), run(6, 7)), (con(2, 6, 7, 9, 10, 12), run()), (run(), con(1, 5, 8, 9, 11)), (con(3, 7, 8, 12), run(1, 1)), (con(1, 2, 6, 8, 9, 12), con(2, 5, 6, 9, 11))]


def products(prop, *fns):
    return [case(prop, '%s(x, y, mtr)' % fn, fn, list(p), product(fn)) for fn in fns for p in PAIRS if fn != 'cp' or any(o[0][0] == 'c' for o in p)]


def involutions(prop):
    return [case(prop, '%s(x)' % fn, fn, [o], unary_sign(fn)) for fn in ('reverse', 'involute', 'conjugate') for o in (run(), run(6, 9), run(0, 5), run(8, 12), run(7, 7), con(1, 3, 5, 6, 9, 12), con(1, 2, 3, 6, 7, 9, 12), con(2, 4, 5, 6, 7, 8, 9, 10, 11, 12))]
