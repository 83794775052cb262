"""Flats of the homogeneous model: parameters and translation."""
from .common import *

BOUNDS = ('homogeneous models of the line, plane, space and 4-space; flats spanned by up to three arbitrary points or by a point and directions, points and hyperplanes with arbitrary coefficients, '
          'basis blades fixed at compile time or chosen at run time; every real coordinate with the parameter defined')


def split(D, F):
    """F = M + ep ^ dir"""
    p = 1 << D
    M = {k: v for k, v in F.items() if not k & p}
    d = {k & ~p: (v if ref.grade(k) % 2 == 1 else -v) for k, v in F.items() if k & p}
    return M, d


def pts(c, D, m):
    """m points of the base space from the inputs x_"""
    x = c.i('x_')
    return [{1 << i: x[j * D + i] for i in range(D)} for j in range(m)]


def cases(tier):
    out = []
    for ns, D in (('ga2h', 2), ('ga3h', 3), ('ga1h', 1)) + ((('ga4h', 4),) if tier == 'thorough' else ()):
        A = SPACES[ns]
        n = D + 1
        ep = {1 << D: RV(1)}
        P = lambda j: 'point(%s)' % ', '.join('$[%d]' % (j * D + i) for i in range(D))
        V = lambda j: 'euclidean_vector(%s)' % ', '.join('$[%d]' % (j * D + i) for i in range(D))
        vec = lambda x, j, D=D: {1 << i: x[j * D + i] for i in range(D)}
        pt = lambda x, j, vec=vec, D=D: {**vec(x, j), 1 << D: RV(1)}
        w = lambda *fs: fs
        flats = [kvec(n, 1), kvec(n, n - 1), kvec(n, n), sblade(1, n), sblade(n), cblade(n), cblade(1, n), cblade(n, 1), cblade(1), mixed(n, 2) if n > 2 else cblade(n)]
        if D >= 2:
            flats += [expr('pq', '%s ^ %s' % (P(0), P(1)), 2 * D, lambda x, A=A, pt=pt: A.op(pt(x, 0), pt(x, 1))),
                      expr('pa', '%s ^ %s' % (P(0), V(1)), 2 * D, lambda x, A=A, pt=pt, vec=vec: A.op(pt(x, 0), vec(x, 1))),
                      expr('cq', 'point(%s) ^ %s' % (', '.join('c<%d>' % (i + 1) for i in range(D)), P(0)), D, lambda x, A=A, pt=pt, D=D: A.op({**{1 << i: RV(i + 1) for i in range(D)}, 1 << D: RV(1)}, pt(x, 0)))]
        if D >= 3:
            flats += [expr('pqr', '%s ^ %s ^ %s' % (P(0), P(1), P(2)), 3 * D, lambda x, A=A, pt=pt: A.op(A.op(pt(x, 0), pt(x, 1)), pt(x, 2)))]
        flats += [expr('ab', V(0), D, lambda x, vec=vec: vec(x, 0))]
        if A.n <= 4:
            flats += [dyn(n), edyn(n), udyn(n)]
        for x in flats:
            nd = lambda c, x, *r, A=A, D=D: [c.or_(*[c.and_(g, c.ne(A.rnorm_sqr(split(D, d)[1]), RV(0))) for g, d in x])]
            hasdir = any(not zero(v) for g, d in x.ref(Probe(), 'x') for v in split(D, d)[1].values()) if not x.label.startswith(('dyn', 'edyn', 'udyn')) else True
            out.append(call('P23', ns, 'flat_direction(x)', [x], lambda x, D=D: split(D, x)[1], 'direction', tu=ns + '_d'))
            out.append(call('P23', ns, 'flat_moment(x)', [x], lambda x, D=D: split(D, x)[0], 'moment', tu=ns + '_d'))
            if hasdir:
                sup = lambda x, A=A, D=D: A.gp(split(D, x)[0], A.inv(split(D, x)[1]))
                out.append(call('P23', ns, 'flat_support_vector(x)', [x], sup, 'support', tu=ns + '_s', pre=nd))
                out.append(call('P23', ns, 'flat_unit_support_point(x)', [x], lambda x, sup=sup, ep=ep, A=A: A.add(sup(x), ep), 'point', tu=ns + '_s', pre=nd))
            for t in ([expr('t', V(0), D, lambda x, vec=vec: vec(x, 0))] + ([sblade(1), cblade(D)] if x.label in ('k1', 'pq', 'k2') else [])):
                out.append(call('P23', ns, 'translate(y, x)', [x, t], lambda x, t, A=A, D=D: A.add(x, A.op(t, split(D, x)[1])), 'translate', tu=ns + '_t'))
        # what the parameters mean
        E = ref.E(D)
        line = lambda x, vec=vec: (vec(x, 0), vec(x, 1))
        q2 = expr('raw', 'scalar($[0])', 2 * D, lambda x: {i: v for i, v in enumerate(list(x)[:2 * D])})
        raw = lambda m: expr('raw%d' % m, '0.0', m, lambda x, m=m: {i: v for i, v in enumerate(list(x)[:m])})
        coords = lambda x, j, D=D: {1 << i: x[j * D + i] for i in range(D)}
        sub = lambda a, b: {k: a[k] - b[k] for k in a}
        code = lambda f, m: f.replace('@', 'x_').replace('P0', 'point(%s)' % ', '.join('x_[%d]' % i for i in range(D))).replace('P1', 'point(%s)' % ', '.join('x_[%d]' % (D + i) for i in range(D))).replace(
            'P2', 'point(%s)' % ', '.join('x_[%d]' % (2 * D + i) for i in range(D))).replace('T9', 'euclidean_vector(%s)' % ', '.join('x_[%d]' % (m * D - D + i) for i in range(D)))
        if D >= 2:
            def foot(x, coords=coords, E=E, sub=sub, D=D):
                """the point of the line closest to the origin"""
                p, d = coords(x, 0), sub(coords(x, 1), coords(x, 0))
                k = E.sp(p, d) / E.sp(d, d) if isinstance(E.sp(p, d), RV) else E.sp(p, d)[0] / E.sp(d, d)[0]
                return {b: p[b] - k * d[b] for b in p}
            ne = lambda c, x, D=D: [c.or_(*[c.ne(x[0][1][i], x[0][1][D + i]) for i in range(D)])]
            out.append(call('P23', ns, code('flat_direction(P0 ^ P1)', 2), [raw(2 * D)], lambda x, sub=sub, coords=coords: sub(coords(x, 1), coords(x, 0)), 'line_direction', tu=ns + '_m'))
            out.append(call('P23', ns, code('flat_support_vector(P0 ^ P1)', 2), [raw(2 * D)], foot, 'line_support', tu=ns + '_m', pre=ne))
            out.append(call('P23', ns, code('flat_unit_support_point(P0 ^ P1)', 2), [raw(2 * D)], lambda x, foot=foot, ep=ep: {**foot(x), **ep}, 'line_point', tu=ns + '_m', pre=ne))
            tr = lambda x, m, coords=coords, A=A, ep=ep: [{**{k: coords(x, j)[k] + coords(x, m)[k] for k in coords(x, j)}, **ep} for j in range(m)]
            out.append(call('P23', ns, code('translate(T9, P0 ^ P1)', 3), [raw(3 * D)], lambda x, tr=tr, A=A: A.op(*tr(x, 2)), 'line_translate', tu=ns + '_m'))
        if D >= 3:
            out.append(call('P23', ns, code('flat_direction(P0 ^ P1 ^ P2)', 3), [raw(3 * D)], lambda x, sub=sub, coords=coords, A=A: A.op(sub(coords(x, 1), coords(x, 0)), sub(coords(x, 2), coords(x, 0))), 'plane_direction', tu=ns + '_m'))
            out.append(call('P23', ns, code('translate(T9, P0 ^ P1 ^ P2)', 4), [raw(4 * D)], lambda x, tr=tr, A=A: A.op(A.op(*tr(x, 3)[:2]), tr(x, 3)[2]), 'plane_translate', tu=ns + '_m'))
            # unit support point lies on the plane; support vector is orthogonal to its direction
            nd3 = lambda c, x, A=A, sub=sub, coords=coords: [c.ne(A.rnorm_sqr(A.op(sub(coords(x[0][1], 1), coords(x[0][1], 0)), sub(coords(x[0][1], 2), coords(x[0][1], 0)))), RV(0))]
            out.append(call('P23', ns, code('auto const f = P0 ^ P1 ^ P2; gsv::out(o, flat_unit_support_point(f) ^ f);', 3), [raw(3 * D)], lambda x: {}, 'plane_incidence', tu=ns + '_m', pre=nd3))
            out.append(call('P23', ns, code('auto const f = P0 ^ P1 ^ P2; gsv::out(o, lcont(flat_support_vector(f), flat_direction(f)));', 3), [raw(3 * D)], lambda x: {}, 'plane_orthogonal', tu=ns + '_m', pre=nd3))
        out.append(call('P23', ns, code('translate(T9, P0)', 2), [raw(2 * D)], lambda x, coords=coords, ep=ep: {**{k: v + coords(x, 1)[k] for k, v in coords(x, 0).items()}, **ep}, 'point_translate', tu=ns + '_m'))
    return uniq(out)
