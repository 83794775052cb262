"""Grades deduced from the type of an expression."""
from .common import *

BOUNDS = ('dimension <= 4; results of every product and of compositions of two products over operands of every representation, with every range of possible grades of the run-time basis blades; '
          'every real coefficient and every run-time basis blade in those ranges')


def sound(ns, code, ops, tag, tu):
    """no coefficient of the result has a grade below smallest_possible_grade_v or above largest_possible_grade_v, and no component is lost"""
    A = SPACES[ns]
    names = ['x', 'y', 'z'][:len(ops)]
    ins, body = {}, ''
    for o, v in zip(ops, names):
        ins.update(o.ins(v))
        body += o.decl(v)
    body += '    auto const r = %s; gsv::out(o, r); s[0] = gsv::lowest(r); s[1] = gsv::highest(r);' % code

    def pre(c):
        return [p for o, v in zip(ops, names) for p in o.pre(c, v)]

    def post(c):
        s = c.o('s')
        for k in range(A.N):
            g = RV(ref.grade(k))
            inside = c.and_(c.le(s[0], g), c.le(g, s[1])) if not c.conc else s[0] <= ref.grade(k) <= s[1]
            if inside is True:
                continue
            c.eq('o[%s] (grade outside the deduced range)' % format(k, 'b'), c.ite(inside, RV(0), rv(c.o('o')[k]) if not isinstance(c.o('o')[k], float) else RV(Fraction(c.o('o')[k]))), RV(0))
        c.true('range within the space', c.and_(c.le(RV(0), s[0]), c.le(s[0], s[1])) if not c.conc else 0 <= s[0] <= s[1])
    return Case('P28_%s_%s_%s' % (ns, tag, '_'.join(o.label for o in ops)), ns, body, ins, {'o': ('d', A.N), 's': ('d', 2)}, post, pre=pre, what='deduced grades of %s on (%s) in %s' % (code, ', '.join(o.label for o in ops), ns), tu=tu)


def cases(tier):
    out = []
    D = lambda n, a, b: dyn(n, 'double', a, b)
    for ns, n in (('ga3e', 3), ('ga4e', 4), ('x_s111', 3), ('ga2e', 2)) + ((('ga3h', 4), ('x_s22', 4), ('ga1e', 1)) if tier == 'thorough' else ()):
        rs = [(a, b) for a in range(n + 1) for b in range(a, n + 1) if (a, b) not in ((0, 0), (n, n))]    # those have a constant basis blade
        if tier != 'thorough' and n > 2:
            rs = [(0, 1), (1, 1), (1, 2), (0, n), (2, 2), (2, n), (1, n)] if ns != 'x_s111' else [(0, n), (1, 2), (2, n)]
        for i, fn in enumerate(('gp', 'op', 'rp', 'lcont', 'rcont', 'dot', 'hip', 'sp')):
            for r in rs:
                for q in rs:
                    if tier == 'thorough' or n < 4 or (r[0] + r[1] + q[0] + q[1]) % 2 == 0:
                        out.append(sound(ns, '%s(x, y)' % fn, [D(n, *r), D(n, *q)], fn, '%s_%s' % (ns, fn)))
        comp = ['gp(gp(x, y), x)', 'op(gp(x, y), y)', 'lcont(gp(x, y), gp(y, x))', 'rp(gp(x, y), gp(y, y))', 'gp(rp(x, y), op(x, y))', 'dual(gp(x, y))', 'op(lcont(x, y), rcont(y, x))', 'reverse(gp(x, y))', 'involute(op(x, y))']
        for i, code in enumerate(comp):
            for r, q in (((2, 2), (1, n)), ((0, n), (1, 2)), ((1, 1), (2, 2)), ((n - 1, n), (n - 1, n))):
                if n < 2 or r[1] > n or q[0] > q[1] or 'dual' in code and ns == 'x_s111':
                    continue
                out.append(sound(ns, code, [D(n, *r), D(n, *q)], 'c%d' % i, ns + '_c'))
        for code, tag in (('gp(x, y)', 'gp'), ('rp(x, y)', 'rp'), ('op(x, y)', 'op'), ('lcont(x, y)', 'lcont'), ('x + y', 'add'), ('x - y', 'sub'), ('dot(x, y)', 'dot')):
            for x, y in ((kvec(n, 1), kvec(n, 2)), (mixed(n, 0), mixed(n, 1)), (kvec(n, 1), D(n, 1, 2)), (cblade(1, 2), D(n, 0, n)), (edyn(n), mixed(n, 2)), (esum(n), edyn(n)), (kvec(n, 2), scal())) if n > 1 else ():
                if ns in ('ga3e', 'x_s111'):
                    out.append(sound(ns, code, [x, y], 'm' + tag, ns + '_m'))
    return uniq(out)
