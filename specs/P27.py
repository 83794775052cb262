"""Visiting components and basis vectors."""
from .common import *
from gatlsv.dom import to_z3

BOUNDS = ('dimension <= 5; every representation of the visited multivector, every real coefficient and run-time basis blade, every position at which the visitor asks to stop; '
          'bit patterns over up to 12 basis vectors')

VISIT = '''int n = 0; int const k = (int) k_[0];
    bool const r = ga::for_each_component(x, [&](ga::bitset_t const b, auto const &v, ga::entry_source_t const sb, ga::entry_source_t const sv, bool &keep_going) {
        o[b] += (double) v; ++n; s[3] += keep_going ? 1 : 0; s[4] += sb == ga::STORED_RUNTIME_DEFINED_ENTRY ? 1 : 0; s[5] += sv == ga::STORED_RUNTIME_DEFINED_ENTRY ? 1 : 0;
        s[6] += sb == ga::MAPPED_RUNTIME_DEFINED_ENTRY || sv == ga::MAPPED_RUNTIME_DEFINED_ENTRY ? 1 : 0; keep_going = n != k; });
    s[0] = n; s[1] = r ? 1 : 0; s[2] = k;'''


def visit(ns, x, N, total, dynamic, stored):
    """total components, how many have run-time basis blades, how many have run-time coefficients"""
    ins = x.ins('x')
    ins['k_'] = ('i', 1)

    def pre(c):
        return x.pre(c, 'x') + [c.or_(*[c.ueq(c.i('k_')[0], j) for j in range(0, total + 2)])]

    def post(c):
        k = c.i('k_')[0]
        full_ = guarded(c, combos([x.ref(c, 'x')]) if not c.conc else [y for y in combos([x.ref(c, 'x')]) if y[0] is True], lambda d: d, N)
        s = c.o('s')
        for j in range(0, total + 2):
            stop = 1 <= j <= total
            here = c.ueq(k, j)
            if here is False:
                continue
            n = j if stop else total
            c.eq('calls (stop at %d)' % j, c.ite(here, s[0], RV(n)), RV(n))
            c.eq('result (stop at %d)' % j, c.ite(here, s[1], RV(0 if stop else 1)), RV(0 if stop else 1))
            c.eq('keep_going on entry (stop at %d)' % j, c.ite(here, s[3], RV(n)), RV(n))
            if not stop or j == total:
                c.eq('run-time basis blades', c.ite(here, s[4], RV(dynamic)), RV(dynamic))
                c.eq('run-time coefficients', c.ite(here, s[5], RV(stored)), RV(stored))
                for b in range(N):
                    c.eq('o[%s]' % format(b, 'b'), c.ite(here, c.o('o')[b], full_[b]), full_[b])
        c.eq('no map storage', s[6], RV(0))
    return Case('P27_%s_visit_%s' % (ns, x.label), ns, x.decl('x') + '    ' + VISIT, ins, {'o': ('d', N), 's': ('d', 7)}, post, pre=pre, what='for_each_component on %s in %s' % (x.label, ns), tu=ns + '_v')


def bits_case(ns, n, name, decl, ins, pre_, mask):
    """mask(c) -> list of (guard, bitset)"""
    body = decl + '''
    int cnt = 0; int const k = (int) k_[0];
    bool const r = ga::for_each_basis_vector(x, [&](ga::index_t const i, bool &keep_going) { o[i] += 1; s[2] += keep_going ? 1 : 0; ++cnt; s[3] = (double) i; keep_going = cnt != k; });
    s[0] = cnt; s[1] = r ? 1 : 0;'''
    ins = dict(ins)
    ins['k_'] = ('i', 1)

    def pre(c):
        return pre_(c) + [c.or_(*[c.ueq(c.i('k_')[0], j) for j in range(0, n + 2)])]

    def post(c):
        for g, b, vals in mask(c):
            if c.conc and g is not True:
                continue
            bs = ref.bits(b)
            for j in range(0, n + 2):
                here = b_and(g, c.ueq(c.i('k_')[0], j))
                if here is False:
                    continue
                cnt = j if 1 <= j <= len(bs) else len(bs)
                tag = '%s stop %d: ' % (format(b, 'b'), j)
                all_, seen = [], []

                def e(lab, got, want):
                    if c.conc:
                        got = rv(Fraction(got))
                    else:    # under the guard the inputs have these values
                        sub = [(v, z3.BitVecVal(w, 64)) for v, w in vals + [(c.i('k_')[0], j)]]
                        got = RV(*[z3.simplify(z3.substitute(to_z3(t), *sub)) for t in (got.n, got.d)])
                    all_.append(c.same(got, RV(want)))
                    seen.append(got)
                e('calls', c.o('s')[0], cnt)
                e('result', c.o('s')[1], 0 if 1 <= j <= len(bs) else 1)
                e('keep_going', c.o('s')[2], cnt)
                if not 1 <= j <= len(bs):
                    for i in range(n + 1):
                        e('index %d' % i, c.o('o')[i], 1 if i - 1 in bs else 0)
                c.true(tag + 'calls, result, keep_going, indices', c.or_(c.not_(here), b_and(*all_)), (str(seen), ''))
    return Case('P27_%s_bits_%s' % (ns, name), ns, body, ins, {'o': ('d', n + 2), 's': ('d', 4)}, post, pre=pre, what='for_each_basis_vector on %s in %s' % (name, ns), tu=ns + '_b')


def ordered(ns, n):
    """without stopping, the bits of any bit pattern are visited exactly once each (a bit-vector argument over all patterns)"""
    body = '''ga::bitset_t const x = (ga::bitset_t) xb[0];
    bool const r = ga::for_each_basis_vector(x, [&](ga::index_t const i, bool &) { o[0] ^= (std::int64_t) 1 << (i - 1); o[1] += 1; o[2] = (std::int64_t) i > o[2] ? (std::int64_t) i : -1; });
    o[3] = r ? 1 : 0;'''

    def post(c):
        x = c.i('xb')[0]
        c.ieq('indices', c.o('o')[0], x)
        if isinstance(x, int):
            c.ieq('calls', c.o('o')[1], bin(x).count('1'))
        else:
                c.ieq('calls', c.o('o')[1], sum((z3.ZeroExt(63, z3.Extract(i, i, x)) for i in range(n)), z3.BitVecVal(0, 64)))
        c.true('ascending', c.o('o')[2] != -1 if isinstance(c.o('o')[2], int) else c.not_(c.ueq(c.o('o')[2], (1 << 64) - 1)))
        c.ieq('result', c.o('o')[3], 1)
    return Case('P27_%s_pattern_%d' % (ns, n), ns, body, {'xb': ('u', 1)}, {'o': ('i', 4)}, post, pre=lambda c: [c.ult(c.i('xb')[0], 1 << n)], what='for_each_basis_vector on any pattern of %d bits' % n, tu='%s_p%d' % (ns, n))


def cases(tier):
    out = []
    spaces = [('ga3e', 3), ('ga2c', 4), ('ga2e', 2), ('ga3p', 4)] + ([('ga4e', 4), ('ga1e', 1), ('ga3m', 5), ('ga3c', 5), ('ga5e', 5)] if tier == 'thorough' else [])
    for ns, n in spaces:
        A = SPACES[ns]
        ks = lambda g: sum(1 for b in range(1 << n) if ref.grade(b) == g)
        ops = [(full(n), A.N, 0, A.N), (kvec(n, 1), n, 0, n), (scal(), 1, 0, 1), (sblade(1), 1, 0, 1), (cblade(1), 1, 0, 0), (cnum(-2), 1, 0, 0),
               (dyn(n), 1, 1, 1), (edyn(n), 1, 1, 0), (udyn(n), 1, 1, 0), (dsum(n), 2, 2, 2), (esum(n), 2, 2, 0), (esum(n, '-'), 2, 2, 0)]
        if n > 1:
            ops += [(kvec(n, 2), ks(2), 0, ks(2)), (mixed(n, 0), 3 if n > 2 else 2, 0, 1), (mixed(n, 1), 3, 0, 2), (mixed(n, 2), 2, 0, 0), (mixed(n, 3), 2, 0, 1), (cblade(1, 2), 1, 0, 0),
                    (expr('frac', '(c<1> / c<2>) * e(c<1>) - $[0] * e(c<2>)', 1, lambda x: {1: RV(Fraction(1, 2)), 2: -x[0]}), 2, 0, 1),
                    (expr('pyth', 'sqrt(c<2>) * e(c<1>) + $[0] * (e(c<1>) ^ e(c<2>))', 1, None), 2, 0, 1)]
        for x, t, d, s in ops:
            if x.label == 'pyth':
                continue
            out.append(visit(ns, x, A.N, t, d, s))
        m = lambda v: (lambda c: [(c.ueq(c.i(v)[0], b), b, [(c.i(v)[0], b)]) for b in range(1 << n)])
        if n < 4 or tier == 'thorough':
            out.append(bits_case(ns, n, 'bitset', '    ga::bitset_t const x = (ga::bitset_t) xb[0];', {'xb': ('u', 1)}, lambda c, n=n: [c.ult(c.i('xb')[0], 1 << n)], m('xb')))
            x = dyn(n)
            out.append(bits_case(ns, n, 'dyn', x.decl('x'), x.ins('x'), lambda c, x=x: x.pre(c, 'x'), m('xb')))
        x = edyn(n)
        out.append(bits_case(ns, n, 'edyn', x.decl('x'), x.ins('x'), lambda c, x=x: x.pre(c, 'x'), lambda c, n=n: [(c.ueq(c.i('xb')[0], i), 1 << (i - 1), [(c.i('xb')[0], i)]) for i in range(1, n + 1)]))
        for x, b in ((sblade(1), 1), (cblade(n), 1 << (n - 1)), (scal(), 0), (cnum(3), 0)) + (((cblade(1, 2), 3), (sblade(n, 1), 1 | 1 << (n - 1))) if n > 1 else ()):
            out.append(bits_case(ns, n, x.label, x.decl('x'), x.ins('x'), lambda c: [], lambda c, b=b: [(True, b, [])]))
    for n in (4, 8, 12) + ((16, 20) if tier == 'thorough' else ()):
        out.append(ordered('ga3e', n))
    return uniq(out)
