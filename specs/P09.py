"""Reversion, grade involution and Clifford conjugation."""
from .common import *
from . import huge

BOUNDS = 'dimension <= 5; single basis blades, constant and run-time, also in 12 dimensions and (the run-time ones being subsets of eight of the basis vectors) in 60 dimensions; every coefficient an arbitrary real, every run-time basis blade an arbitrary bitset of the space'


def cases(tier):
    out = []
    for fn, code in (('reverse', 'reverse(x)'), ('involute', 'involute(x)'), ('conjugate', 'conjugate(x)'), ('tilde', '~x')):
        rn = 'reverse' if fn == 'tilde' else fn
        spec = [('ga3e', 3, unary(3)), ('ga4e', 4, rblade1(4)), ('ga5e', 5, [full(5), dyn(5)]), ('ga2e', 2, [full(2)]), ('ga3m', 5, [full(5)]), ('ga3c', 5, [full(5), mixed(5, 1)]),
                ('x_s111', 3, [full(3), dyn(3), dyn2(3), dsum(3), esum(3), mixed(3, 1)]), ('x_g3', 3, [full(3), mixed(3, 3)])]
        for ns, n, ops in spec:
            A = SPACES[ns]
            for x in ops:
                if fn == 'tilde' and x.label in ('num', 'int3'):
                    continue
                out.append(call('P09', ns, code, [x], getattr(A, rn), fn, tu=ns + '_' + fn))
        A = SPACES['ga4e']
        for lo in range(5):
            for hi in range(max(lo, 1), 5):
                for x in (dyn(4, 'double', lo, hi), udyn(4, lo, hi)):
                    if fn != 'tilde':
                        out.append(call('P09', 'ga4e', code, [x], getattr(A, rn), fn, tu='ga4e_g_' + fn))
    # double application and (anti)automorphism over compound expressions
    for ns, n in (('ga3e', 3), ('ga2m', 4)):
        A = SPACES[ns]
        out.append(call('P09', ns, 'reverse(reverse(x))', [full(n)], lambda x: x, 'rr', tu=ns + '_c'))
        out.append(call('P09', ns, 'involute(conjugate(reverse(x)))', [full(n)], lambda x: x, 'icr', tu=ns + '_c'))
    A = SPACES['ga3e']
    out.append(call('P09', 'ga3e', 'reverse(gp(x, y)) - gp(reverse(y), reverse(x))', [full(3), full(3)], lambda x, y: {}, 'anti', tu='ga3e_c'))
    out.append(call('P09', 'ga3e', 'involute(gp(x, y)) - gp(involute(x), involute(y))', [full(3), full(3)], lambda x, y: {}, 'auto', tu='ga3e_c'))
    return uniq(out + huge.involutions('P09'))
