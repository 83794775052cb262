"""Parameters of flats, rounds, tangents in the conformal and Minkowski models."""
from .common import *
from .P22 import point

BOUNDS = ('conformal and Minkowski models of the line, the plane and (thorough) space; flats, rounds and tangents built from up to four arbitrary points, directions and a weight, primal and dual; '
          'every real coordinate for which the object is not degenerate')
H = RV(Fraction(1, 2))


class Geo:
    """independent description of the objects: coordinates in the base space"""

    def __init__(self, kind, D, A):
        self.kind, self.D, self.A = kind, D, A
        p, q = 1 << D, 2 << D
        h = RV(Fraction(1, 2))
        self.no = {p: RV(1)} if kind == 'c' else {p: -h, q: h}
        self.ni = {q: RV(1)} if kind == 'c' else {p: RV(1), q: RV(1)}

    def coords(self, x, j):
        return [x[j * self.D + i] for i in range(self.D)]

    def vec(self, v):
        return {1 << i: c for i, c in enumerate(v)}

    def point(self, v, s=None):
        """no + v + s ni (s = v.v / 2 by default)"""
        return self.A.add(self.A.add(self.no, self.vec(v)), self.scale(self.dot(v, v) * H if s is None else s, self.ni))

    @staticmethod
    def scale(a, m):
        return {k: v * a for k, v in m.items()}

    @staticmethod
    def dot(a, b):
        r = RV(0)
        for x, y in zip(a, b):
            r = r + x * y
        return r

    @staticmethod
    def sub(a, b):
        return [x - y for x, y in zip(a, b)]

    @staticmethod
    def comb(a, k, b):
        return [x + k * y for x, y in zip(a, b)]

    def wedge(self, *vs):
        r = vs[0]
        for v in vs[1:]:
            r = self.A.op(r, v)
        return r


def cases(tier):
    out = []
    spaces = [('ga1c', 1, 'c'), ('ga2c', 2, 'c'), ('ga1m', 1, 'm'), ('ga2m', 2, 'm')]
    if tier == 'thorough':
        spaces += [('ga3c', 3, 'c'), ('ga3m', 3, 'm')]
    for ns, D, kind in spaces:
        A = SPACES[ns]
        G = Geo(kind, D, A)
        P = lambda j, D=D: 'point(%s)' % ', '.join('x_[%d]' % (j * D + i) for i in range(D))
        V = lambda j, D=D: 'euclidean_vector(%s)' % ', '.join('x_[%d]' % (j * D + i) for i in range(D))
        raw = lambda m: expr('raw%d' % m, '0.0', m, lambda x, m=m: {i: v for i, v in enumerate(list(x)[:m])})
        d2 = lambda G, a, b: G.dot(G.sub(a, b), G.sub(a, b))

        def add(tag, obj, fn, m, f, pre, tu, dual=True, objdual=None):
            """fn of an object given by C++ code, in its primal form and as the dual of the primal form"""
            out.append(call('P24', ns, 'gsv::out(o, primal_%s(%s));' % (fn, obj), [raw(m)], f, '%s_%s' % (tag, fn), tu=ns + tu, pre=pre))
            if dual:
                out.append(call('P24', ns, 'gsv::out(o, dual_%s(dual(%s)));' % (fn, obj), [raw(m)], f, '%s_dual_%s' % (tag, fn), tu=ns + tu + 'd', pre=pre))
        # flats
        pq = lambda x, G=G: (G.coords(x, 0), G.coords(x, 1))
        ne = lambda c, x, G=G, D=D: [c.or_(*[c.ne(x[0][1][i], x[0][1][D + i]) for i in range(D)])]
        wnz = lambda i: (lambda c, x: [c.ne(x[0][1][i], RV(0))])
        both = lambda *ps: (lambda c, x: [r for p in ps for r in p(c, x)])
        add('flatpoint', 'x_[%d] * (%s ^ ni)' % (D, P(0)), 'flat_direction', D + 1, lambda x, G=G, D=D: G.scale(x[D], G.ni), None, '_f')
        add('flatpoint', 'x_[%d] * (%s ^ ni)' % (D, P(0)), 'flat_location', D + 1, lambda x, G=G: G.point(G.coords(x, 0), G.dot(G.coords(x, 0), G.coords(x, 0))), wnz(D), '_f')
        add('line', 'x_[%d] * (%s ^ %s ^ ni)' % (2 * D, P(0), P(1)), 'flat_direction', 2 * D + 1, lambda x, G=G, D=D: G.scale(x[2 * D], A_op(G, G.vec(G.sub(G.coords(x, 1), G.coords(x, 0))), G.ni)), None, '_f')

        def foot(x, G=G):
            p, d = G.coords(x, 0), G.sub(G.coords(x, 1), G.coords(x, 0))
            s = G.comb(p, -(G.dot(p, d) / G.dot(d, d)), d)
            return G.point(s, G.dot(s, s))
        add('line', '%s ^ %s ^ ni' % (P(0), P(1)), 'flat_location', 2 * D, foot, ne, '_f')
        add('ray', '%s ^ %s ^ ni' % (P(0), V(1)), 'flat_direction', 2 * D, lambda x, G=G: A_op(G, G.vec(G.coords(x, 1)), G.ni), None, '_f')
        if D >= 2 and tier == 'thorough':
            add('plane', '%s ^ %s ^ %s ^ ni' % (P(0), V(1), V(2)), 'flat_direction', 3 * D, lambda x, G=G: G.wedge(G.vec(G.coords(x, 1)), G.vec(G.coords(x, 2)), G.ni), None, '_f')
        # dual hyperplanes n + delta ni
        nn = lambda c, x, G=G: [c.ne(G.dot(G.coords(x[0][1], 0), G.coords(x[0][1], 0)), RV(0))]

        def hyper(x, G=G, D=D):
            v = G.coords(x, 0)
            s = [x[D] * c / G.dot(v, v) for c in v]
            return G.point(s, G.dot(s, s))
        out.append(call('P24', ns, 'gsv::out(o, dual_flat_location(%s + x_[%d] * ni));' % (V(0), D), [raw(D + 1)], hyper, 'hyperplane_location', tu=ns + '_f', pre=nn))
        # rounds
        out.append(call('P24', ns, 'gsv::out(o, dual_round_size_sqr(x_[%d] * (%s - (x_[%d] / 2) * ni)));' % (D + 1, P(0), D), [raw(D + 2)], lambda x, D=D: {0: x[D]}, 'sphere_dual_size', tu=ns + '_r', pre=wnz(D + 1)))
        out.append(call('P24', ns, 'gsv::out(o, dual_round_location(x_[%d] * (%s - (x_[%d] / 2) * ni)));' % (D + 1, P(0), D), [raw(D + 2)], lambda x, G=G: G.point(G.coords(x, 0)), 'sphere_dual_location', tu=ns + '_r', pre=wnz(D + 1)))
        out.append(call('P24', ns, 'gsv::out(o, primal_round_location(x_[%d] * %s));' % (D, P(0)), [raw(D + 1)], lambda x, G=G: G.point(G.coords(x, 0)), 'point_location', tu=ns + '_r', pre=wnz(D)))
        out.append(call('P24', ns, 'gsv::out(o, primal_round_size_sqr(x_[%d] * %s));' % (D, P(0)), [raw(D + 1)], lambda x: {}, 'point_size', tu=ns + '_r', pre=wnz(D)))
        pair = '%s ^ %s' % (P(0), P(1))
        mid = lambda x, G=G: G.point([(a + b) * H for a, b in zip(G.coords(x, 0), G.coords(x, 1))])
        add('pair', pair, 'round_direction', 2 * D, lambda x, G=G: A_op(G, G.vec(G.sub(G.coords(x, 1), G.coords(x, 0))), G.ni), None, '_r')
        add('pair', pair, 'round_location', 2 * D, mid, ne, '_r')
        add('pair', pair, 'round_size_sqr', 2 * D, lambda x, G=G: {0: d2(G, G.coords(x, 0), G.coords(x, 1)) * RV(Fraction(1, 4))}, ne, '_r')
        if D == 2:
            tri = '%s ^ %s ^ %s' % (P(0), P(1), P(2))
            area = lambda x, G=G: (lambda u, v: u[0] * v[1] - u[1] * v[0])(G.sub(G.coords(x, 1), G.coords(x, 0)), G.sub(G.coords(x, 2), G.coords(x, 0)))
            ok = lambda c, x, area=area: [c.ne(area(x[0][1]), RV(0))]

            def circum(x, G=G, area=area):
                p = G.coords(x, 0)
                u, v = G.sub(G.coords(x, 1), p), G.sub(G.coords(x, 2), p)
                k = RV(2) * area(x)
                uu, vv = G.dot(u, u), G.dot(v, v)
                return [p[0] + (v[1] * uu - u[1] * vv) / k, p[1] + (u[0] * vv - v[0] * uu) / k]
            add('circle', tri, 'round_direction', 6, lambda x, G=G: G.wedge(G.vec(G.sub(G.coords(x, 1), G.coords(x, 0))), G.vec(G.sub(G.coords(x, 2), G.coords(x, 0))), G.ni), None, '_c')
            add('circle', tri, 'round_location', 6, lambda x, G=G, circum=circum: G.point(circum(x)), ok, '_c')
            add('circle', tri, 'round_size_sqr', 6, lambda x, G=G, circum=circum: {0: d2(G, circum(x), G.coords(x, 0))}, ok, '_c')
        # tangents: p ^ (a + (a.p) ni)
        tan = '%s ^ (%s + %s * ni)' % (P(0), V(1), ' + '.join('x_[%d] * x_[%d]' % (i, D + i) for i in range(D)) if D == 1 else '(%s)' % ' + '.join('x_[%d] * x_[%d]' % (i, D + i) for i in range(D)))
        na = lambda c, x, G=G: [c.ne(G.dot(G.coords(x[0][1], 1), G.coords(x[0][1], 1)), RV(0))]
        add('tangent', tan, 'tangent_direction', 2 * D, lambda x, G=G: A_op(G, G.vec(G.coords(x, 1)), G.ni), None, '_t')
        add('tangent', tan, 'tangent_location', 2 * D, lambda x, G=G: G.point(G.coords(x, 0)), na, '_t')
    return uniq(out)


def A_op(G, a, b):
    return G.A.op(a, b)
