"""Meet and join."""
import re
from .common import *

BOUNDS = ('Euclidean models of 2 to 5 dimensions, and homogeneous, Minkowski, conformal and signed ones of 3 basis vectors; families of pairs of blades of grades 0 to 5 with one real parameter t (a coordinate or a weight), so that the families cross the degenerate positions (parallel, contained, equal); '
          'in each family -8 < t < 8 and t is one of the critical values of the family or at least 1/8 away from them, so that what is not zero exceeds the tolerance 1e-8 given to the functions; '
          'blades stored in constant basis blades (run-time basis blades are rejected at compile time); fast_join and fast_meet_and_join of blades of grades 1 to n-1')

PAR = 'tsuw'


class Blade:
    """the outer product of vectors, their coordinates being numbers or parameters"""

    def __init__(self, n, *vs, code=None):
        self.n, self.vs, self.code = n, [v.split() for v in vs], code

    def cpp(self):
        if self.code:       # the same blade with only some of its components stored
            return re.sub(r'\be(\d)', r'e(c<\1>)', re.sub(r'\bt\b', 'x_[0]', self.code))
        num = lambda s: ('-x_[%d]' % PAR.index(s[1])) if s[0] == '-' and s[1] in PAR else 'x_[%d]' % PAR.index(s) if s in PAR else '(double) %s' % s
        if not self.vs:
            return 'scalar(2.0)'
        return ' ^ '.join('vector(%s)' % ', '.join(num(s) for s in v) for v in self.vs)

    def ref(self, A, x):
        num = lambda s: -x[PAR.index(s[1])] if s[0] == '-' and s[1] in PAR else x[PAR.index(s)] if s in PAR else RV(Fraction(s))
        r = {0: RV(1 if self.vs else 2)}
        for v in self.vs:
            r = A.op(r, {1 << i: num(s) for i, s in enumerate(v) if not zero(num(s))})
        return r


class Num:
    """comparisons that are exact for the solver and within rounding for a native run"""

    def __init__(self, c):
        self.c = c

    def out(self, name):
        o = self.c.o(name)
        return {k: (rv(Fraction(v)) if isinstance(v, float) else v) for k, v in enumerate(o)} if not self.c.conc else {k: RV(Fraction(v)) if v == v and abs(v) < 1e300 else RV(Fraction(10) ** 9) for k, v in enumerate(o)}

    def same(self, a, b):
        if self.c.conc:
            a, b = a.value(), b.value()
            return abs(a - b) <= Fraction(1, 10 ** 6) * (1 + abs(a) + abs(b))
        return self.c.same(a, b)

    def nonzero(self, d):
        if self.c.conc:
            return any(abs(v.value()) > Fraction(1, 10 ** 7) for v in d.values())
        return self.c.or_(*[self.c.ne(v, RV(0)) for v in d.values()])


def sq(A, d):
    return sum((v * v for v in d.values()), RV(0))


def contained(A, q, m, x):
    """m lies in the blade x: the projection of m onto x is m"""
    p = A.lcont(A.lcont(m, x), x)
    n = A.lcont(x, x).get(0, RV(0))
    return [q.same(p.get(k, RV(0)), n * m.get(k, RV(0))) for k in range(A.N) if k in p or k in m]


HEAVY = {'ga3e_meet_and_join_Be', 'ga4e_meet_and_join_TT', 'ga4e_fast_join_copy', 'ga4e_fast_meet_and_join_copy', 'ga4e_meet_and_join_same', 'ga4e_meet_and_join_line', 'ga4e_meet_and_join_copy', 'ga5e_meet_and_join_same'}


def case(ns, n, tag, x, y, fn, crit, **kw):
    pars = 1
    A = SPACES['ga%de' % n]
    N = SPACES[ns].N
    body = ('    auto const x = %s; auto const y = %s;\n    double const tol = 1e-8;\n' % (x.cpp(), y.cpp()))
    if fn.endswith('plunge'):
        body += '    gsv::out(j, %s(x, y, tol));' % fn
    elif fn == 'fast_join':
        body += '    gsv::out(j, fast_join(x, y, tol));'
    else:
        body += '    auto const r = %s(x, y, tol); gsv::out(m, std::get<0>(r)); gsv::out(j, std::get<1>(r));' % fn

    def pre(c):
        p = c.i('x_')
        t, E = p[0], RV(Fraction(1, 8))
        away = [c.or_(c.same(t, RV(Fraction(d))), c.lt(E, t - RV(Fraction(d))), c.lt(E, RV(Fraction(d)) - t)) for d in crit]
        return away + [c.lt(t, RV(8)), c.lt(RV(-8), t)] + [c.or_(*[c.ne(v, RV(0)) for v in b.ref(A, p).values()]) for b in (x, y)]

    def post(c):
        q = Num(c)
        p = c.i('x_')
        a, b = x.ref(A, p), y.ref(A, p)
        ga, gb = len(x.vs), len(y.vs)
        j = q.out('j')
        c.true('result is not zero', q.nonzero(j), (str(c.o('j')), ''))
        inside = lambda label, u, v: c.true(label, c.and_(*contained(A, q, u, v)), (str(c.o('j')), ''))
        if fn.endswith('plunge'):
            return
        if fn == 'fast_join':
            inside('lhs in join', a, j)
            inside('rhs in join', b, j)
            c.true('the join is a unit blade', q.same(sq(A, j), RV(1)))
            return
        m = q.out('m')
        c.true('meet is not zero', q.nonzero(m), (str(c.o('m')), ''))
        # both are homogeneous and their grades add up to those of the arguments
        bad = [c.or_(q.same(m[s], RV(0)), q.same(j[t], RV(0))) for s in range(N) for t in range(N) if ref.grade(s) + ref.grade(t) != ga + gb]
        c.true('grades of meet and join', c.and_(*bad), (str(c.o('m')), str(c.o('j'))))
        inside('meet in lhs', m, a)
        inside('meet in rhs', m, b)
        inside('lhs in join', a, j)
        inside('rhs in join', b, j)
        # they factor the same pair: lhs without the meet, times rhs, is the join up to sign
        w = A.op(A.rcont(a, A.reverse(m)), b)
        n2 = sq(A, m)
        pos = [q.same(w.get(k, RV(0)), n2 * j.get(k, RV(0))) for k in range(A.N)]
        neg = [q.same(w.get(k, RV(0)), -(n2 * j.get(k, RV(0)))) for k in range(A.N)]
        c.true('meet and join belong together', c.or_(c.and_(*pos), c.and_(*neg)), (str(c.o('m')), str(c.o('j'))))
    outs = {'j': ('d', N)}
    if 'meet' in fn:
        outs['m'] = ('d', N)
    return Case('P31_%s_%s_%s' % (ns, fn, tag), ns, body, {'x_': ('d', pars)}, outs, post, pre=pre, what='%s of %s and %s in %s' % (fn, x.cpp(), y.cpp(), ns), tu='%s_%s' % (ns, tag), **kw)


def cases(tier):
    out = []
    B = Blade
    fams = {
        2: [('vv', B(2, '1 t'), B(2, '2 1'), (0, -2, '1/2')), ('ve', B(2, '1 t'), B(2, '2 t'), (0,)), ('vI', B(2, 't 1'), B(2, '1 0', '0 2'), (0,)), ('II', B(2, '1 0', '0 t'), B(2, '1 0', '0 3'), (0,)), ('sv', B(2), B(2, 't 1'), (0,)), ('vs', B(2, 't 1'), B(2), (0,))],
        3: [('vv', B(3, '1 t 0'), B(3, '1 2 0'), (0, 2)), ('vB', B(3, '1 t 0'), B(3, '1 1 0', '0 0 1'), (0, 1)), ('Bv', B(3, '1 1 0', '0 t 1'), B(3, '0 1 1'), (0, 1)), ('BB', B(3, '1 t 0', '0 0 1'), B(3, '1 0 0', '0 1 0'), (0,)),
            ('Be', B(3, '1 t 0', '0 1 1'), B(3, '1 1 0', '0 1 1'), (0, 1)), ('vI', B(3, '1 t 0'), B(3, '1 0 0', '0 1 0', '0 0 2'), (0,)), ('BI', B(3, '1 t 0', '0 0 1'), B(3, '1 0 0', '0 1 0', '0 0 1'), (0,)),
            ('join', B(3, '0 2 0', code='2.0 * e2'), B(3, '0 1 0', 't 0 1', code='(e2 ^ e3) + t * (e2 ^ e1)'), (0,)),
            ('nioj', B(3, '0 1 0', 't 0 1', code='(e2 ^ e3) + t * (e2 ^ e1)'), B(3, '0 2 0', code='2.0 * e2'), (0,))],
        4: [('same', B(4, '1 t 0 0', '0 0 1 0', code='(e1 ^ e3) + t * (e2 ^ e3)'), B(4, '1 t 0 0', '0 0 1 0', code='(e1 ^ e3) + t * (e2 ^ e3)'), (0,)),
            ('samew', B(4, '1 1 0 0', '0 0 1 0', code='(e1 ^ e3) + (e2 ^ e3)'), B(4, 't t 0 0', '0 0 1 0', code='t * (e1 ^ e3) + t * (e2 ^ e3)'), (0,)),
            ('wsame', B(4, 't t 0 0', '0 0 1 0', code='t * (e1 ^ e3) + t * (e2 ^ e3)'), B(4, '1 1 0 0', '0 0 1 0', code='(e1 ^ e3) + (e2 ^ e3)'), (0,)),
            ('linew', B(4, '1 1 0 0', '0 0 1 0', code='(e1 ^ e3) + (e2 ^ e3)'), B(4, '1 0 0 0', '0 0 t 0', code='t * (e1 ^ e3)'), (0,)),
            ('copy', B(4, '0 1 0 t', '1 0 0 0', code='(e2 ^ e1) + t * (e4 ^ e1)'), B(4, '0 2 0 t', '1 0 0 0', code='2 * (e2 ^ e1) + t * (e4 ^ e1)'), (0,)),
            ('line', B(4, '1 t 0 0', '0 0 1 0', code='(e1 ^ e3) + t * (e2 ^ e3)'), B(4, '1 0 0 0', '0 0 1 0', code='e1 ^ e3'), (0,)),
            ('none', B(4, '1 t 0 0', '0 0 1 0', code='(e1 ^ e3) + t * (e2 ^ e3)'), B(4, '1 0 0 0', '0 0 0 1', code='e1 ^ e4'), (0,)),
            ('vT', B(4, '1 0 0 t', code='e1 + t * e4'), B(4, '1 0 0 0', '0 1 0 0', '0 0 1 0', code='e1 ^ e2 ^ e3'), (0,)),
            ('TT', B(4, '1 0 0 t', '0 1 0 0', '0 0 1 0', code='(e1 ^ e2 ^ e3) + t * (e4 ^ e2 ^ e3)'), B(4, '1 0 0 0', '0 1 0 0', '0 0 1 0', code='e1 ^ e2 ^ e3'), (0,)),
            ('BT', B(4, '1 0 0 t', '0 1 0 0', code='(e1 ^ e2) + t * (e4 ^ e2)'), B(4, '1 0 0 0', '0 0 1 0', '0 0 0 2', code='2 * (e1 ^ e3 ^ e4)'), (0,))],
        5: [('same', B(5, '1 t 0 0 0', '0 0 1 0 0', code='(e1 ^ e3) + t * (e2 ^ e3)'), B(5, '1 t 0 0 0', '0 0 1 0 0', code='(e1 ^ e3) + t * (e2 ^ e3)'), (0,))],
    }
    for n, fs in fams.items():
        for tag, x, y, k in fs:
            for fn in ('meet_and_join', 'fast_join', 'fast_meet_and_join'):
                if fn != 'meet_and_join' and any(len(b.vs) in (0, n) for b in (x, y)):
                    continue    # rejected at compile time: the projection of a vector onto a constant scalar has no norm
                if tier == 'quick' and 'ga%de_%s_%s' % (n, fn, tag) in HEAVY:
                    continue
                out.append(case('ga%de' % n, n, tag, x, y, fn, k))
    # meet and join do not depend on the metric of the model
    for ns in ('ga2h', 'ga1m', 'ga1c', 'x_s120') + (('x_g3', 'ga2p') if tier == 'thorough' else ()):
        for tag, x, y, k in fams[3]:
            for fn in ('meet_and_join', 'fast_join', 'fast_meet_and_join'):
                if tier == 'quick' and (ns, tag, fn) not in {('ga1c', 'vv', 'meet_and_join'), ('ga1c', 'vv', 'fast_join'), ('ga1c', 'Bv', 'fast_join'), ('ga1c', 'Bv', 'fast_meet_and_join'), ('ga1m', 'vv', 'fast_join'), ('ga2h', 'vB', 'meet_and_join'), ('x_s120', 'BB', 'fast_join')}:
                    continue
                if tag in ('vv', 'vB', 'Bv', 'BB'):
                    out.append(case(ns, 3, tag, x, y, fn, k))
    return uniq(out)
