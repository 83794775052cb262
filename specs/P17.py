"""Application of versors and rotors."""
from .common import *

BOUNDS = 'dimension <= 4; versors that are numbers, invertible vectors, blades, products of up to three vectors, rotors and run-time basis blades; arguments of every representation; every real coefficient with the inverse defined'


def cases(tier):
    out = []
    spaces = [('ga2e', 2), ('ga3e', 3), ('ga2h', 3), ('ga1m', 3), ('ga2p', 3), ('x_s120', 3), ('ga1c', 3), ('x_g3', 3)]
    if tier == 'thorough':
        spaces += [('ga1e', 1), ('ga4e', 4), ('ga3h', 4), ('ga2m', 4), ('ga2c', 4), ('ga3p', 4), ('x_s22', 4), ('x_g2', 2), ('x_s111', 3)]
    for ns, n in spaces:
        A = SPACES[ns]
        E = lambda v, x, A=A: A.gp(A.gp(v, x), A.inv(v))
        O = lambda v, x, A=A: A.gp(A.gp(v, A.involute(x)), A.inv(v))
        R = lambda v, x, A=A: A.gp(A.gp(v, x), A.reverse(v))
        nzv = nonzero(A, lambda v, *r: v)
        inv = lambda x: not zero(A.rnorm_sqr(x.ref(Probe(), 'x')[0][1]))
        f = full(n) if n <= 3 else kvec(n, 2)
        rot = expr('rot', 'scalar($[0]) + $[1] * (e(c<1>) ^ e(c<2>))', 2, lambda x: {0: x[0], 3: x[1]}) if n >= 2 else scal()
        crot = expr('crot', 'c<3> / c<5> - (c<4> / c<5>) * (e(c<1>) ^ e(c<2>))', 0, lambda x: {0: RV(Fraction(3, 5)), 3: RV(Fraction(-4, 5))}) if n >= 2 else cnum(1)
        even = [x for x in (rot, crot, cblade(1, 2), sblade(1, 2), num(), scal(), cnum(-2)) if inv(x)]
        odd = [x for x in (kvec(n, 1), sblade(1), cblade(2), mixed(n, 2)) if inv(x)]
        args = [f, kvec(n, 1), mixed(n, 1), mixed(n, 0), cblade(1, n), sblade(2), num(), scal()]
        if n == 1:
            continue
        for i, v in enumerate(even):
            for x in (args if i in (0, 2) else args[1:3]):
                out.append(call('P17', ns, 'apply_even_versor(x, y)', [v, x], E, 'even', tu=ns + '_e', pre=nzv))
                out.append(call('P17', ns, 'apply_rotor(x, y)', [v, x], R, 'rotor', tu=ns + '_r'))
        for i, v in enumerate(odd):
            for x in (args if i in (0, 2) else args[1:3]):
                out.append(call('P17', ns, 'apply_odd_versor(x, y)', [v, x], O, 'odd', tu=ns + '_o', pre=nzv))
        if A.orthogonal:
            for v, x in ((dyn(n), kvec(n, 1)), (kvec(n, 1), dyn(n)), (rot, dyn(n)), (edyn(n), dyn(n)), (esum(n), kvec(n, 1)), (esum(n), edyn(n)), (edyn(n), f), (sblade(1), esum(n))):
                if tier != 'thorough' and v.label in ('rot', 'k1') and x.label == 'dyn' or v.label == 'esum' and tier != 'thorough' and x.label == 'k1':
                    continue
                if v.label in ('rot', 's1') and not inv(v) or n > 2 and tier != 'thorough' and ('dyn' in (v.label, x.label) and 'edyn' not in (v.label, x.label) or 'esum' in (v.label, x.label) or x.label == 'full' and ns != 'ga3e'):
                    continue
                nzd = nonzero(A, lambda v, *r: v)
                out.append(call('P17', ns, 'apply_odd_versor(x, y)', [v, x], O, 'odd', tu=ns + '_d', pre=nzd))
                out.append(call('P17', ns, 'apply_even_versor(x, y)', [v, x], E, 'even', tu=ns + '_d', pre=nzd))
                out.append(call('P17', ns, 'apply_rotor(x, y)', [v, x], R, 'rotor', tu=ns + '_d'))
        # transformations are orthogonal and are outermorphisms; grades are preserved
        k1 = kvec(n, 1)
        c0 = lambda *a: {}
        out.append(call('P17', ns, 'sp(apply_odd_versor(x, y), apply_odd_versor(x, z)) - sp(y, z)', [k1, k1, k1], c0, 'isometry_odd', tu=ns + '_i', pre=nzv))
        out.append(call('P17', ns, 'apply_odd_versor(x, apply_odd_versor(x, y)) - y', [k1, f], c0, 'involution', tu=ns + '_i', pre=nzv))
        if inv(rot):
            out.append(call('P17', ns, 'sp(apply_even_versor(x, y), apply_even_versor(x, z)) - sp(y, z)', [rot, k1, k1], c0, 'isometry_even', tu=ns + '_i', pre=nzv))
            out.append(call('P17', ns, 'op(apply_even_versor(x, y), apply_even_versor(x, z)) - apply_even_versor(x, op(y, z))', [rot, k1, k1], c0, 'outer_even', tu=ns + '_i2', pre=nzv))
        if inv(sblade(1)):
            out.append(call('P17', ns, 'op(apply_odd_versor(x, y), apply_odd_versor(x, z)) - apply_odd_versor(x, op(y, z))', [expr('v2', '$[0] * e(c<1>) + $[1] * e(c<2>)', 2, lambda x: {1: x[0], 2: x[1]}), k1, k1], c0, 'outer_odd', tu=ns + '_i2', pre=nzv))
        if inv(rot):
            one = lambda c, v, *r, A=A: [c.same(A.rnorm_sqr(v[0][1]), RV(1))]
            out.append(call('P17', ns, 'apply_rotor(x, y) - apply_even_versor(x, y)', [rot, k1], c0, 'unit_rotor', tu=ns + '_i', pre=one))
            out.append(call('P17', ns, 'rnorm_sqr(apply_rotor(x, y)) - rnorm_sqr(y)', [rot, k1], c0, 'rotor_norm', tu=ns + '_i', pre=one))
        out.append(call('P17', ns, 'apply_even_versor(gp(x, y), z)', [k1, mixed(n, 2) if inv(mixed(n, 2)) else mixed(n, 0), k1], lambda v, w, x, A=A: A.gp(A.gp(A.gp(v, w), x), A.inv(A.gp(v, w))), 'vv', tu=ns + '_vv', pre=nonzero(A, lambda v, w, x, A=A: A.gp(v, w))))
    return uniq(out)
