"""Operand shapes shared by the property specifications."""
from fractions import Fraction
import z3
from gatlsv.build import Case
from gatlsv.dom import RV, rv, b_and
from gatlsv import ref


class Op:
    """A GATL operand: how the harness builds it and what it denotes.

    decl(v)   C++ statements defining variable v from its inputs v_ (doubles), vb (unsigned)
    ins(v)    inputs
    ref(c, v) list of (guard, {blade: RV}); guards are mutually exclusive and exhaustive
    """

    def __init__(self, label, decl, ins, refs, pre=None, n=None):
        self.label = label
        self._decl = decl
        self._ins = ins
        self._ref = refs
        self._pre = pre

    def decl(self, v):
        return '    ' + self._decl(v) + '\n'

    def ins(self, v):
        return dict(self._ins(v))

    def ref(self, c, v):
        r = self._ref(c, v)
        if isinstance(r, dict):
            return [(True, r)]
        return r

    def pre(self, c, v):
        return self._pre(c, v) if self._pre else []


def full(n, T='double', first=0, last=None):
    last = n if last is None else last
    lab = 'full' if (first, last) == (0, n) else ('k%d' % first if first == last else 'k%d_%d' % (first, last))
    ks = [k for k in range(1 << n) if first <= ref.grade(k) <= last]
    t = 'd' if T == 'double' else 'i'
    return Op(lab + ('' if T == 'double' else '_i'),
              lambda v: 'auto %s = gsv::make<full_multivector_t<%s, %d, %d, %d> >(%s_);' % (v, T, n, first, last, v),
              lambda v: {v + '_': (t, 1 << n)},
              lambda c, v: {k: c.i(v + '_')[k] for k in ks})


def kvec(n, g, T='double'):
    return full(n, T, g, g)


def dyn(n, T='double', first=0, last=None):
    """a run-time coefficient times a run-time basis blade"""
    last_ = n if last is None else last
    full_ = (first, last_) == (0, n)

    def refs(c, v):
        x, b = c.i(v + '_')[0], c.i(v + 'b')[0]
        return [(c.ueq(b, k), {k: x}) for k in range(1 << n) if first <= ref.grade(k) <= last_]

    def pre(c, v):
        b = c.i(v + 'b')[0]
        if full_:
            return [c.ult(b, 1 << n)]
        return [c.or_(*[c.ueq(b, k) for k in range(1 << n) if first <= ref.grade(k) <= last_])]
    return Op('dyn' if full_ else 'dyn%d_%d' % (first, last_),
              lambda v: 'scaled_basis_blade_t<%s, %d, %d> %s(make_sequential_storage((%s) %s_[0]), make_sequential_storage((bitset_t) %sb[0]));' % (T, first, last_, v, T, v, v),
              lambda v: {v + '_': ('d' if T == 'double' else 'i', 1), v + 'b': ('u', 1)}, refs, pre)


def dyn2(n, top=1):
    """sum of two run-time coefficients times run-time basis blades, the second of grade <= top"""
    second = [k for k in range(1 << n) if ref.grade(k) <= top]

    def refs(c, v):
        (x, y), (a, b) = c.i(v + '_'), c.i(v + 'b')
        return [(c.and_(c.ueq(a, j), c.ueq(b, k)), {j: x + y} if j == k else {j: x, k: y}) for j in range(1 << n) for k in second]

    def pre(c, v):
        a, b = c.i(v + 'b')
        return [c.ult(a, 1 << n), c.or_(*[c.ueq(b, k) for k in second])]
    return Op('dyn2', lambda v: ('scaled_basis_blade_t<double, 0, %d> %s_a(make_sequential_storage((double) %s_[0]), make_sequential_storage((bitset_t) %sb[0])); '
                                 'scaled_basis_blade_t<double, 0, %d> %s_c(make_sequential_storage((double) %s_[1]), make_sequential_storage((bitset_t) %sb[1])); '
                                 'auto const %s = %s_a + %s_c;') % (n, v, v, v, top, v, v, v, v, v, v),
              lambda v: {v + '_': ('d', 2), v + 'b': ('u', 2)}, refs, pre)


def dsum(n, k=2, first=0, last=None):
    """sum of k run-time coefficients times run-time basis blades, all of the same type"""
    last = n if last is None else last
    bl = [b for b in range(1 << n) if first <= ref.grade(b) <= last]

    def refs(c, v):
        x, b = c.i(v + '_'), c.i(v + 'b')
        out = [(True, {})]
        for i in range(k):
            out = [(b_and(g, c.ueq(b[i], t)), {**d, t: d[t] + x[i] if t in d else x[i]}) for g, d in out for t in bl if b_and(g, c.ueq(b[i], t)) is not False]
        return out

    def pre(c, v):
        return [c.or_(*[c.ueq(y, t) for t in bl]) for y in c.i(v + 'b')]
    T = 'scaled_basis_blade_t<double, %d, %d>' % (first, last)
    return Op('dsum%d' % k if (first, last) == (0, n) else 'dsum%d_%d_%d' % (k, first, last),
              lambda v: ' '.join('%s %s_%s(make_sequential_storage((double) %s_[%d]), make_sequential_storage((bitset_t) %sb[%d]));' % (T, v, 'abcdef'[i], v, i, v, i) for i in range(k))
              + ' auto const %s = %s;' % (v, ' + '.join('%s_%s' % (v, 'abcdef'[i]) for i in range(k))),
              lambda v: {v + '_': ('d', k), v + 'b': ('u', k)}, refs, pre)


def esum(n, sign='+'):
    """e(i) + e(j) or e(i) - e(j) with run-time indices"""
    s = RV(1 if sign == '+' else -1)

    def refs(c, v):
        a, b = c.i(v + 'b')
        return [(b_and(c.ueq(a, i), c.ueq(b, j)), {1 << (i - 1): RV(1) + s} if i == j else {1 << (i - 1): RV(1), 1 << (j - 1): s})
                for i in range(1, n + 1) for j in range(1, n + 1) if b_and(c.ueq(a, i), c.ueq(b, j)) is not False]

    def pre(c, v):
        return [c.or_(*[c.ueq(y, k) for k in range(1, n + 1)]) for y in c.i(v + 'b')]
    return Op('esum' if sign == '+' else 'edif', lambda v: 'auto const %s = e((index_t) %sb[0]) %s e((index_t) %sb[1]);' % (v, v, sign, v), lambda v: {v + 'b': ('u', 2)}, refs, pre)


def udyn(n, first=0, last=None):
    """a unit run-time basis blade"""
    last_ = n if last is None else last

    def refs(c, v):
        b = c.i(v + 'b')[0]
        return [(c.ueq(b, k), {k: RV(1)}) for k in range(1 << n) if first <= ref.grade(k) <= last_]

    def pre(c, v):
        b = c.i(v + 'b')[0]
        return [c.or_(*[c.ueq(b, k) for k in range(1 << n) if first <= ref.grade(k) <= last_])]
    return Op('udyn%d_%d' % (first, last_),
              lambda v: 'unit_basis_blade_t<%d, %d> %s(make_sequential_storage((bitset_t) %sb[0]));' % (first, last_, v, v),
              lambda v: {v + 'b': ('u', 1)}, refs, pre)


def edyn(n):
    """e(index) with a run-time index"""
    def refs(c, v):
        b = c.i(v + 'b')[0]
        return [(c.ueq(b, k), {1 << (k - 1): RV(1)}) for k in range(1, n + 1)]

    def pre(c, v):
        b = c.i(v + 'b')[0]
        return [c.or_(*[c.ueq(b, k) for k in range(1, n + 1)])]
    return Op('edyn', lambda v: 'auto const %s = e((index_t) %sb[0]);' % (v, v), lambda v: {v + 'b': ('u', 1)}, refs, pre)


def sblade(*idx):
    """run-time coefficient, compile-time basis blade"""
    m = sum(1 << (i - 1) for i in idx)
    return Op('s' + ''.join(map(str, idx)), lambda v: 'scaled_constant_basis_blade_t<double%s> %s(make_sequential_storage(%s_[0]));' % (''.join(', %d' % i for i in idx), v, v),
              lambda v: {v + '_': ('d', 1)}, lambda c, v: {m: c.i(v + '_')[0]})


def cblade(*idx):
    """unit compile-time basis blade, written as the outer product of basis vectors"""
    m = sum(1 << (i - 1) for i in idx)
    s = ref.sort_sign([i - 1 for i in idx])
    return Op('c' + ''.join(map(str, idx)), lambda v: 'auto const %s = %s;' % (v, ' ^ '.join('e(c<%d>)' % i for i in idx)), lambda v: {}, lambda c, v: {m: RV(s)})


def num():
    return Op('num', lambda v: 'double const %s = %s_[0];' % (v, v), lambda v: {v + '_': ('d', 1)}, lambda c, v: {0: c.i(v + '_')[0]})


def inum(k):
    return Op('int%s' % str(k).replace('-', 'm'), lambda v: 'int const %s = %d;' % (v, k), lambda v: {}, lambda c, v: {0: RV(k)})


def scal():
    return Op('scal', lambda v: 'auto const %s = scalar(%s_[0]);' % (v, v), lambda v: {v + '_': ('d', 1)}, lambda c, v: {0: c.i(v + '_')[0]})


def cnum(k):
    return Op('c_%s' % str(k).replace('-', 'm'), lambda v: 'auto const %s = c<%d>;' % (v, k), lambda v: {}, lambda c, v: {0: RV(k)})


def expr(label, code, cnt, value):
    """code uses $[i] for its run-time coefficients; value(list of RV) -> {blade: RV}"""
    return Op(label, lambda v: 'auto const %s = %s;' % (v, code.replace('$', v + '_')), lambda v: {v + '_': ('d', cnt)} if cnt else {},
              lambda c, v: {k: rv(x) for k, x in value(c.i(v + '_') if cnt else []).items()})


def combos(parts):
    """cartesian product of guarded lists -> (guard, [dicts])"""
    out = [(True, [])]
    for p in parts:
        out = [(b_and(g, gg), ds + [d]) for g, ds in out for gg, d in p if b_and(g, gg) is not False]
    return out


def guarded(c, cs, f, N):
    """expected coefficients: list of N values, selected by guard"""
    vals = [(g, f(*ds)) for g, ds in cs]
    if not vals:
        return [RV(0)] * N
    res = []
    for k in range(N):
        r = vals[-1][1].get(k, RV(0))
        for g, d in reversed(vals[:-1]):
            r = c.ite(g, d.get(k, RV(0)), r)
        res.append(r)
    return res


def op_case(prop, name, ns, ops, code, f, N, pre=None, ctx=False, **kw):
    """ops: operands named x, y, z, w; code: C++ expression or statements storing into o; f(*mvs) -> expected multivector"""
    names = ['x', 'y', 'z', 'w', 'v'][:len(ops)]
    ins = {}
    body = ''
    for o, v in zip(ops, names):
        ins.update(o.ins(v))
        body += o.decl(v)
    if 'gsv::' not in code and 'o[0]' not in code:
        code = 'gsv::out(o, %s);' % code
    body += '    ' + code

    def pre_(c):
        r = []
        for o, v in zip(ops, names):
            r += o.pre(c, v)
        if pre:
            r += pre(c, *[o.ref(c, v) for o, v in zip(ops, names)])
        return r

    def post(c):
        cs = combos([o.ref(c, v) for o, v in zip(ops, names)])
        if len(cs) > 1 and c.conc:
            cs = [x for x in cs if x[0] is True]
        exp = guarded(c, cs, (lambda *ds: f(c, *ds)) if ctx else f, N)
        for k in range(N):
            c.eq('o[%s]' % format(k, 'b'), c.o('o')[k], exp[k])
    kw.setdefault('what', '%s on (%s) in %s' % (code, ', '.join(o.label for o in ops), ns))
    return Case('%s_%s_%s_%s' % (prop, ns, name, '_'.join(o.label for o in ops)), ns, body, ins, {'o': ('d', N)}, post, pre=pre_, **kw)


# ---------------------------------------------------------------------------------------------- algebras
SPACES = {
    'ga1e': ref.E(1), 'ga2e': ref.E(2), 'ga3e': ref.E(3), 'ga4e': ref.E(4), 'ga5e': ref.E(5),
    'ga1h': ref.homogeneous(1), 'ga2h': ref.homogeneous(2), 'ga3h': ref.homogeneous(3), 'ga4h': ref.homogeneous(4),
    'ga1m': ref.minkowski(1), 'ga2m': ref.minkowski(2), 'ga3m': ref.minkowski(3),
    'ga1c': ref.conformal(1), 'ga2c': ref.conformal(2), 'ga3c': ref.conformal(3),
    'ga1p': ref.plane_based(1), 'ga2p': ref.plane_based(2), 'ga3p': ref.plane_based(3), 'ga4p': ref.plane_based(4),
    'x_s111': ref.S(1, 1, 1), 'x_s120': ref.S(1, 2, 0), 'x_s013': ref.S(0, 1, 3), 'x_s22': ref.S(2, 2, 0),
    'x_g2': ref.Algebra(2, [[2, 1], [1, 3]]), 'x_g3': ref.Algebra(3, [[1, 2, -1], [2, -1, 3], [-1, 3, 2]]),
    'x_g4': ref.Algebra(4, [[2, 1, -1, 3], [1, -2, 1, 2], [-1, 1, 3, -1], [3, 2, -1, 1]]),
    'x_gd': ref.Algebra(3, [[0, 1, 0], [1, 0, 0], [0, 0, 0]]),
}


def mixed(n, k=0):
    """sums mixing constant, native and run-time coefficients over constant basis blades"""
    if k == 0:
        return expr('mix0', '$[0] * e(c<1>) + c<2> * e(c<2>) + e(c<%d>)' % n if n > 2 else '$[0] * e(c<1>) + c<2> * e(c<2>)', 1,
                    (lambda x: {1: x[0], 2: RV(2), 1 << (n - 1): RV(1)}) if n > 2 else (lambda x: {1: x[0], 2: RV(2)}))
    if k == 1:
        return expr('mix1', '$[0] + (c<3> / c<2>) * (e(c<1>) ^ e(c<2>)) - scalar($[1]) * e(c<%d>)' % n, 2, lambda x: {0: x[0], 3: RV(Fraction(3, 2)), 1 << (n - 1): -x[1]})
    if k == 2:
        return expr('mix2', 'e(c<1>) - e(c<%d>)' % n, 0, lambda x: {1: RV(1), 1 << (n - 1): RV(-1)})
    if k == 3:
        return expr('mix3', 'c<1> + $[0] * (e(c<2>) ^ e(c<1>))', 1, lambda x: {0: RV(1), 3: -x[0]})


def shapes(n):
    """pairs of operands exercising every way of writing an argument"""
    b = lambda *i: cblade(*[min(j, n) for j in i])
    r = [(full(n), full(n)), (kvec(n, 1), full(n)), (full(n), kvec(n, min(2, n))), (kvec(n, 1), kvec(n, 1)), (kvec(n, n - 1), kvec(n, 1)),
         (sblade(1), full(n)), (full(n), sblade(2, 1) if n > 1 else sblade(1)), (cblade(1, 2), full(n)), (full(n), cblade(n, 1)),
         (mixed(n, 0), full(n)), (full(n), mixed(n, 1)), (mixed(n, 2), mixed(n, 1)), (mixed(n, 3), mixed(n, 0)), (mixed(n, 2), mixed(n, 2))]
    return r


def numbers(n):
    return [(num(), full(n)), (full(n), num()), (scal(), full(n)), (full(n), scal()), (cnum(-2), full(n)), (full(n), cnum(3)), (inum(3), full(n)), (full(n), inum(-2))]


def rblades(n):
    """pairs whose basis blades are chosen at run time"""
    return [(dyn(n), dyn(n)), (dyn(n), cblade(1, 2)), (cblade(n), dyn(n)), (dyn(n), sblade(2)), (sblade(1, 2), dyn(n)), (edyn(n), edyn(n)), (edyn(n), dyn(n)),
            (udyn(n), dyn(n)), (dyn(n), udyn(n, 1, n)), (dyn(n, 'double', 1, 2), dyn(n, 'double', 2, n)), (num(), dyn(n)), (dyn(n), num()), (dyn(n), cnum(2)), (edyn(n), cblade(1)), (cblade(2), edyn(n))]


def rsums(n):
    """pairs with sums over run-time basis blades"""
    return [(kvec(n, 1), dyn(n)), (edyn(n), full(n)), (esum(n), kvec(n, 1)), (full(n), udyn(n)), (dyn(n), mixed(n, 0)), (dsum(n), cblade(1, 2)), (num(), dsum(n)), (esum(n), edyn(n)), (mixed(n, 1), esum(n, '-'))]


def product(P, fn, rn, spec):
    """spec: list of (namespace, tu suffix, list of operand pairs, options)"""
    out = []
    for ns, suffix, pairs, kw in spec:
        A = SPACES[ns]
        for x, y in pairs:
            out.append(op_case(P, fn, ns, [x, y], '%s(x, y)' % fn, getattr(A, rn), A.N, tu=ns + suffix, **kw))
    return out


def chunks(ns, suffix, pairs, k, **kw):
    return [(ns, '%s%d' % (suffix, i // k), pairs[i:i + k], kw) for i in range(0, len(pairs), k)]


def unary(n):
    """one operand per way of writing an argument"""
    b = lambda *i: cblade(*[min(j, n) for j in i])
    return [full(n), kvec(n, 1), kvec(n, min(2, n)), sblade(min(2, n), 1) if n > 1 else sblade(1), b(1, 2), b(n), mixed(n, 0), mixed(n, 1), mixed(n, 2), mixed(n, 3), num(), scal(), cnum(-2), inum(3)]


def rblade1(n):
    return [dyn(n), edyn(n), udyn(n), dyn(n, 'double', 1, 2)]


def call(P, ns, code, ops, f, tag, **kw):
    """code over x, y, z..."""
    return op_case(P, tag, ns, ops, code, f, SPACES[ns].N, **kw)


def uniq(cases):
    seen, out = set(), []
    for c in cases:
        if c.name not in seen:
            seen.add(c.name)
            out.append(c)
    return out


class Probe:
    """stands for a context when only a generic value of an operand is needed"""

    def i(self, name):
        return [RV(Fraction(p)) for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53)]


def zero(r):
    return r.const() and r.n == 0


def nonzero(A, f=None):
    """precondition: the squared reverse norm of f(operands) (or of the only operand) does not vanish"""
    def pre(c, *xs):
        cs = combos(list(xs))
        return [c.or_(*[c.and_(g, c.ne(A.rnorm_sqr(f(*ds) if f else ds[0]), RV(0))) for g, ds in cs])]
    return pre


def ival(lo, hi):
    """a run-time int in [lo, hi]"""
    def refs(c, v):
        b = c.i(v + '_')[0]
        return [(c.ueq(b, k & ((1 << 64) - 1)) if not isinstance(b, int) else b == k, {0: RV(k)}) for k in range(lo, hi + 1)]

    def pre(c, v):
        return [c.or_(*[g for g, d in refs(c, v)])]
    return Op('ival', lambda v: 'int const %s = (int) %s_[0];' % (v, v), lambda v: {v + '_': ('i', 1)}, refs, pre)
