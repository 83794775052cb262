"""Orthogonal projection and rejection in the Euclidean models."""
from .common import *

BOUNDS = ('Euclidean models of 1 to 4 dimensions; projected multivectors of every representation, subspaces given as k-vectors with arbitrary coefficients, as outer products of arbitrary vectors, '
          'or as basis blades fixed at compile time or chosen at run time; every real coordinate with the subspace not degenerate')


def raw(m):
    return expr('raw%d' % m, '0.0', m, lambda x, m=m: {i: v for i, v in enumerate(list(x)[:m])})


def cases(tier):
    out = []
    for n in (1, 2, 3, 4):
        ns = 'ga%de' % n
        A = SPACES[ns]
        V = lambda j, n=n: 'vector(%s)' % ', '.join('x_[%d]' % (j * n + i) for i in range(n))
        vec = lambda x, j, n=n: {1 << i: x[j * n + i] for i in range(n)}
        proj = lambda x, y, A=A: A.lcont(A.lcont(x, A.inv(y)), y)
        rej = lambda x, y, A=A, proj=proj: A.sub(x, proj(x, y))
        nd = lambda c, x, y, A=A: [c.or_(*[c.and_(g, c.ne(A.rnorm_sqr(d), RV(0))) for g, d in y])]
        subj = [full(n), kvec(n, 1), sblade(1), cblade(n), scal()] + ([kvec(n, 2), cblade(2, 1), mixed(n, 1)] if n > 1 else [])
        subs = [kvec(n, 1), kvec(n, n), sblade(n), cblade(1)] + ([cblade(1, 2), mixed(n, 2), sblade(2, 1), scal()] if n > 1 else [])
        if n == 3:
            subs += [kvec(n, 2)]
        for i, x in enumerate(subj):
            for j, y in enumerate(subs):
                if tier == 'thorough' or n < 4 or (i + j) % 3 == 0:
                    out.append(call('P25', ns, 'project(x, y)', [x, y], proj, 'project', tu='%s_%d' % (ns, i % 3), pre=nd))
                    out.append(call('P25', ns, 'reject(x, y)', [x, y], rej, 'reject', tu='%s_%d' % (ns, i % 3), pre=nd))
        if n < 4:
            for x, y in ([(kvec(n, 1), dyn(n)), (dyn(n), kvec(n, 1))] if n < 3 or tier == 'thorough' else []) + [ (dyn(n), dyn(n)), (edyn(n), cblade(1)), (kvec(n, 1), edyn(n)), (edyn(n), udyn(n)), (cblade(1), dyn(n)), (dyn(n), sblade(n))]:
                out.append(call('P25', ns, 'project(x, y)', [x, y], proj, 'project', tu=ns + '_r', pre=nd))
                if x.label == y.label == 'dyn' or x.label in ('k1', 'c1') or (x.label, y.label) in (('edyn', 'c1'),):
                    out.append(call('P25', ns, 'reject(x, y)', [x, y], rej, 'reject', tu=ns + '_r', pre=nd))
        # what the operations mean: the projection lies in the subspace and the rejection is orthogonal to it
        vn = lambda c, x, n=n: [c.or_(*[c.ne(x[0][1][n + i], RV(0)) for i in range(n)])]
        m = lambda code, f, tag, k, pre=None: out.append(call('P25', ns, code, [raw(k)], f, tag, tu=ns + '_m', pre=pre))
        m('gsv::out(o, project(%s, %s) + reject(%s, %s));' % (V(0), V(1), V(0), V(1)), lambda x, vec=vec: vec(x, 0), 'sum', 2 * n, vn)
        m('gsv::out(o, project(%s, %s) ^ %s);' % (V(0), V(1), V(1)), lambda x: {}, 'within', 2 * n, vn)
        m('gsv::out(o, lcont(%s, reject(%s, %s)));' % (V(1), V(0), V(1)), lambda x: {}, 'orthogonal', 2 * n, vn)
        m('auto const p = project(%s, %s); gsv::out(o, project(p, %s) - p);' % (V(0), V(1), V(1)), lambda x: {}, 'idempotent', 2 * n, vn)
        if 2 <= n <= 3:
            nb = lambda c, x, n=n, A=A, vec=vec: [c.ne(A.rnorm_sqr(A.op(vec(x[0][1], 1), vec(x[0][1], 2))), RV(0))]
            B = '(%s ^ %s)' % (V(1), V(2))
            m('gsv::out(o, project(%s, %s) ^ %s);' % (V(0), B, B), lambda x: {}, 'within_plane', 3 * n, nb)
            m('gsv::out(o, lcont(reject(%s, %s), %s));' % (V(0), B, B), lambda x: {}, 'orthogonal_plane', 3 * n, nb)
            m('gsv::out(o, project(%s, %s));' % (V(1), B), lambda x, vec=vec: vec(x, 1), 'fixed', 3 * n, nb)
            m('gsv::out(o, reject(%s, %s));' % (B, B), lambda x: {}, 'self', 3 * n, nb)
            m('gsv::out(o, project(%s, %s));' % (B, V(0)), lambda x: {}, 'higher', 3 * n, lambda c, x, n=n: [c.or_(*[c.ne(x[0][1][i], RV(0)) for i in range(n)])])
    return uniq(out)
