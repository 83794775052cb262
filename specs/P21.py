"""trivial_copy, checked_trivial_copy and conversions between multivector types."""
from .common import *

BOUNDS = ('dimension <= 4; every coefficient, previous content of the destination and tolerance an arbitrary real, every run-time basis blade an arbitrary bitset of the space; '
          'default and given tolerances')
ASSUMPTIONS = ['the one-time warning of implicit conversions (text written to std::clog) is not modelled']
D = Fraction(1e-8)


class R:
    """a destination type"""

    def __init__(self, label, T, blades, n):
        self.label, self.T, self.blades, self.n = label, T, blades, n


def rfull(n, a=0, b=None):
    b = n if b is None else b
    return R('F%d_%d' % (a, b), 'full_multivector_t<double, %d, %d, %d>' % (n, a, b), [k for k in range(1 << n) if a <= ref.grade(k) <= b], n)


def rblade(n, *idx):
    return R('B' + ''.join(map(str, idx)), 'scaled_constant_basis_blade_t<double%s>' % ''.join(', %d' % i for i in idx), [sum(1 << (i - 1) for i in idx)], n)


def copied(r):
    return lambda x: {k: x.get(k, RV(0)) for k in r.blades}


def support(x):
    return set(k for g, d in x.ref(Probe(), 'x') for k in d)


class Probe:
    conc = True

    def i(self, name):
        return [RV(1)] * 64

    def ueq(self, *a):
        return True
    ult = or_ = and_ = ueq


def cases(tier):
    out = []
    # none of this depends on the metric
    spaces = [('ga3e', 3), ('ga2c', 4)] if tier == 'quick' else [('ga3e', 3), ('ga2h', 3), ('ga4e', 4), ('ga2e', 2), ('ga5e', 5), ('ga2c', 4), ('ga2p', 3)]
    for ns, n in spaces:
        A = SPACES[ns]
        dst = [rfull(n), rfull(n, 1, 1), rfull(n, 2, 2), rfull(n, 0, 1), rfull(n, 1, 2), rfull(n, n, n), rfull(n, 0, 0), rblade(n, 1), rblade(n, 2), rblade(n, 1, 2), rblade(n, n)]
        src = [full(n), kvec(n, 1), kvec(n, 2), full(n, 'double', 0, 1), full(n, 'double', 1, 2), kvec(n, n), sblade(1), sblade(2), sblade(1, 2), scal(), num()]
        fixed = [mixed(n, 0), mixed(n, 1), mixed(n, 2), mixed(n, 3), cblade(2), cblade(1, 2), cblade(n), cnum(3), cnum(0), expr('half', '(c<1> / c<2>) * e(c<1>) - c<7> * e(c<2>)', 0, lambda x: {1: RV(Fraction(1, 2)), 2: RV(-7)})]
        if tier == 'quick' and n == 4:
            dst = [r for r in dst if r.label in ('F0_4', 'F1_1', 'F1_2', 'B12')]
            src = [x for x in src if x.label in ('k1', 'k1_2', 's12')]
            fixed = [x for x in fixed if x.label in ('mix1', 'half')]
        elif tier == 'quick':
            dst = [r for r in dst if r.label not in ('F2_2', 'B2', 'F3_3')]
        const = {'mix0': {2, 1 << (n - 1)} if n > 2 else {2}, 'mix1': {3}, 'mix3': {0}}
        for x in src + fixed:
            sup = support(x) if x.label != 'c_0' else set()
            for r in dst:
                fits = sup <= set(r.blades)
                fresh = '%s r; ' % r.T
                used = '%s r = gsv::make<%s>(y_); ' % (r.T, r.T)
                w = full(n)
                w = Op('dst', lambda v: '', lambda v, n=n: {v + '_': ('d', 1 << n)}, lambda c, v: {})
                if fits:
                    out.append(call('P21', ns, used + 'trivial_copy(x, r); gsv::out(o, r);', [x, w], lambda x, y, r=r: copied(r)(x), 'copy_' + r.label, tu=ns + '_c'))
                    out.append(call('P21', ns, used + 'checked_trivial_copy(x, r); gsv::out(o, r);', [x, w], lambda x, y, r=r: copied(r)(x), 'ccopy_' + r.label, tu=ns + '_c'))
                    if x.label != 'num':
                        out.append(call('P21', ns, 'auto const &a = x; %s r = a; gsv::out(o, r);' % r.T, [x], copied(r), 'init_' + r.label, tu=ns + '_i'))
                        out.append(call('P21', ns, used + 'auto const &a = x; r = a; gsv::out(o, r);', [x, w], lambda x, y, r=r: copied(r)(x), 'assign_' + r.label, tu=ns + '_i'))
                dropped = sup - set(r.blades)
                # components whose value is a compile-time constant cannot be dropped
                if dropped and not (x.label in ('half',) or x.label.startswith('c')) and not (dropped & const.get(x.label, set())) and x.label != 'mix2':
                    N = 1 << n

                    def judge(c, x, y, tol, r=r, dropped=sorted(dropped), N=N):
                        small = c.and_(*[c.le(c.abs(x[k]), tol) for k in dropped])
                        e = {k: c.ite(small, v, RV(0)) for k, v in copied(r)(x).items()}
                        e[N] = c.ite(small, RV(1), RV(2))
                        return e
                    tr = lambda stmt, N=N: 'try { %s gsv::out(o, r); o[%d] += 1; } catch (ga::bad_checked_copy_exception const &) { o[%d] += 2; }' % (stmt, N, N)

                    def add(tag, stmt, tol, extra, suffix, deps=True, tag_pre=None):
                        ops = [x] + ([w] if deps else []) + extra
                        if deps:
                            f = lambda c, *a, tol=tol, judge=judge: judge(c, a[0], None, RV(tol) if tol is not None else a[2][0])
                        else:
                            f = lambda c, *a, tol=tol, judge=judge: judge(c, a[0], None, RV(tol))
                        cs = op_case('P21', tag + '_' + r.label, ns, ops, tr(stmt), f, (1 << n) + 1, ctx=True, tu=ns + suffix, pre=tag_pre)
                        out.append(cs)
                    add('checked', used + 'checked_trivial_copy(x, r);', D, [], '_k')
                    add('checked_q', used + 'checked_trivial_copy(x, r, 0.25);', Fraction(1, 4), [], '_k')
                    if x.label in ('full', 'k1', 'num') and tier == 'thorough' or r.label in ('F1_1', 'B1'):
                        add('checked_t', used + 'checked_trivial_copy(x, r, z);', None, [num()], '_k', tag_pre=lambda c, x, y, z: [c.le(RV(0), z[0][1][0])])
                    if x.label != 'num':
                        add('conv', 'auto const &a = x; %s r = a;' % r.T, D, [], '_v', deps=False)
                        add('conv_tmp', '%s r = %s(+x);' % (r.T, ''), D, [], '_v', deps=False)
        # run-time basis blades
        if A.orthogonal and n <= 4:
            T = 'scaled_basis_blade_t<double, %d, %d>'
            for x, lo, hi in ((dyn(n), 0, n), (dyn(n, 'double', 1, 2), 1, 2), (edyn(n), 1, 1), (udyn(n), 0, n), (udyn(n, 1, 2), 1, 2)):
                t = T % (lo, hi)
                out.append(call('P21', ns, t + ' r(make_sequential_storage(5.0), make_sequential_storage((bitset_t) 1)); trivial_copy(x, r); gsv::out(o, r);', [x], lambda x: x, 'dcopy%d_%d' % (lo, hi), tu=ns + '_d'))
                out.append(call('P21', ns, 'auto const &a = x; ' + t + ' r = a; gsv::out(o, r);', [x], lambda x: x, 'dinit%d_%d' % (lo, hi), tu=ns + '_d'))
                out.append(call('P21', ns, t + ' r(make_sequential_storage(5.0), make_sequential_storage((bitset_t) 1)); auto const &a = x; r = a; gsv::out(o, r);', [x], lambda x: x, 'dassign%d_%d' % (lo, hi), tu=ns + '_d'))
        # copies and moves keep the value, and copies are independent of the original
        for x in (full(n), kvec(n, 1), mixed(n, 1), dyn(n), dyn2(n)):
            if x.label.startswith('dyn') and (not A.orthogonal or n > 3):
                continue
            out.append(call('P21', ns, 'auto a = x; auto b = std::move(a); auto c_ = b; b = c_; gsv::out(o, b);', [x], lambda x: x, 'copies', tu=ns + '_m'))
            if x.label in ('full', 'k1'):
                out.append(call('P21', ns, 'auto a = x; *x.values().begin() = 7.0; gsv::out(o, a);', [x], lambda x: x, 'independent', tu=ns + '_m'))
                out.append(call('P21', ns, 'auto a = x; a = y; gsv::out(o, a); gsv::out(o, x);', [x, x], lambda x, y, A=A: A.add(x, y), 'overwrite', tu=ns + '_m'))
    return uniq(out)
