"""Constructors of vectors and points, and the named constants, of every model."""
from .common import *

BOUNDS = 'every model of dimension 1 to 5 that ships a header; every real coordinate given as a number, an integer, a constant, a scalar or through iterators; every run-time basis vector index'

MODELS = [('ga1e', 1, 'e'), ('ga2e', 2, 'e'), ('ga3e', 3, 'e'), ('ga4e', 4, 'e'), ('ga5e', 5, 'e'), ('ga1h', 1, 'h'), ('ga2h', 2, 'h'), ('ga3h', 3, 'h'), ('ga4h', 4, 'h'),
          ('ga1m', 1, 'm'), ('ga2m', 2, 'm'), ('ga3m', 3, 'm'), ('ga1c', 1, 'c'), ('ga2c', 2, 'c'), ('ga3c', 3, 'c'), ('ga1p', 1, 'p'), ('ga2p', 2, 'p'), ('ga3p', 3, 'p'), ('ga4p', 4, 'p')]


def vec(xs):
    return {1 << i: rv(v) for i, v in enumerate(xs)}


def point(kind, D, xs):
    """the representation of a point documented for each model"""
    r = vec(xs)
    s = sum((rv(v) * rv(v) for v in xs), RV(0))
    half = RV(Fraction(1, 2))
    if kind == 'h':
        r[1 << D] = RV(1)
    elif kind == 'c':
        r[1 << D] = RV(1)
        r[2 << D] = s * half
    elif kind == 'm':
        r[1 << D] = (s - RV(1)) * half
        r[2 << D] = (s + RV(1)) * half
    return r


def args(D, how, k=0):
    """D coordinates written in one of several ways: (C++ list, number of inputs, values)"""
    cs, vals, used = [], [], 0
    for i in range(D):
        w = how[(i + k) % len(how)]
        if w in 'dsf':
            cs.append({'d': '$[%d]', 's': 'scalar($[%d])', 'f': '(double) $[%d]'}[w] % used)
            vals.append(lambda x, j=used: x[j])
            used += 1
        else:
            c, v = {'i': (str(i + 2), i + 2), 'c': ('c<%d>' % (-i - 1), -i - 1), 'z': ('c<0>', 0), 'q': ('(c<3> / c<2>)', Fraction(3, 2)), 'o': ('1', 1)}[w]
            cs.append(c)
            vals.append(lambda x, v=v: RV(v))
    return ', '.join(cs), used, lambda x: [f(x) for f in vals]


def cases(tier):
    out = []
    for ns, D, kind in MODELS:
        A = SPACES[ns]
        n = A.n
        for how in ('d', 's', 'di', 'dc', 'cs', 'zsd', 'c', 'sci') + (('i', 'o') if kind == 'e' else ()):
            if D == 1 and how not in ('d', 's', 'c'):
                continue
            for k in ((0, 1) if len(how) == 2 and D > 1 else (0,)):
                a, cnt, f = args(n, how, k)
                out.append(call('P22', ns, 'x', [expr('vec_%s%d' % (how, k), 'vector(%s)' % a, cnt, lambda x, f=f: vec(f(x)))], lambda x: x, 'vector', tu=ns + '_v'))
                a, cnt, f = args(D, how, k)
                out.append(call('P22', ns, 'x', [expr('ev_%s%d' % (how, k), 'euclidean_vector(%s)' % a, cnt, lambda x, f=f: vec(f(x)))], lambda x: x, 'evector', tu=ns + '_v'))
                if kind in 'hcm':
                    out.append(call('P22', ns, 'x', [expr('pt_%s%d' % (how, k), 'point(%s)' % a, cnt, lambda x, f=f, kind=kind, D=D: point(kind, D, f(x)))], lambda x: x, 'point', tu=ns + '_v'))
        if kind == 'c' and D == 3:
            out.append(call('P22', ns, 'point(1, 2, 2)', [], lambda: point('c', 3, [1, 2, 2]), 'int_point', tu=ns + '_v'))
        # iterators
        ident = lambda m: lambda x: list(x)[:m]
        for it, (b, e) in {'ptr': ('$', '$ + %d'), 'arr': ('std::array<double, %d>{{%s}}', None)}.items():
            for fn, m, f in [('vector', n, vec), ('euclidean_vector', D, vec)] + ([('point', D, lambda xs, kind=kind, D=D: point(kind, D, xs))] if kind in 'hcm' else []):
                if it == 'ptr':
                    code = '%s($, $ + %d)' % (fn, m)
                else:
                    code = '[&] { std::array<double, %d> a{{%s}}; return %s(a.begin(), a.end()); }()' % (m, ', '.join('$[%d]' % i for i in range(m)), fn)
                out.append(call('P22', ns, 'x', [expr('%s_%s' % (fn, it), code, m, lambda x, f=f, m=m: f(list(x)[:m]))], lambda x: x, 'iter', tu=ns + '_v'))
        # named constants
        one = lambda k, v=1: {k: RV(v)}
        h = Fraction(1, 2)
        names = [('e%d' % (i + 1), {1 << i: 1}) for i in range(D)] + [('I', {(1 << n) - 1: 1}), ('pseudoscalar(space)', {(1 << n) - 1: 1}), ('_0', {}), ('_1', {0: 1}), ('_2', {0: 2}),
                                                                       ('unit_pseudoscalar_t<%d>()' % n, {(1 << n) - 1: 1}), ('unit_scalar_t()', {0: 1})]
        p, q = 1 << D, 2 << D
        ei = (1 << D) - 1
        if kind == 'c':
            names += [('no', {p: 1}), ('ni', {q: 1}), ('ep', {p: -1, q: h}), ('em', {p: 1, q: h})]
        elif kind == 'm':
            names += [('ep', {p: 1}), ('em', {q: 1}), ('no', {p: -h, q: h}), ('ni', {p: 1, q: 1})]
        elif kind == 'h':
            names += [('ep', {p: 1})]
        elif kind == 'p':
            names += [('e0', {p: 1})]
        for c, v in names:
            out.append(call('P22', ns, 'x', [expr(c, c, 0, lambda x, v=v: {k: RV(w) for k, w in v.items()})], lambda x: x, 'name', tu=ns + '_n'))
        if kind in 'cm':
            # Ie is the unit pseudoscalar of the base space up to the sign convention rcont(I, minkowski plane)
            mp = A.op({p: RV(1)}, {q: RV(1)})
            out.append(call('P22', ns, 'Ie', [], lambda v=A.rcont({(1 << n) - 1: RV(1)}, mp): v, 'Ie', tu=ns + '_n'))
            X = lambda m: expr('pt%d' % m, 'point(%s)' % ', '.join('$[%d]' % i for i in range(D)), D, lambda x, kind=kind, D=D: point(kind, D, list(x)[:D]))
            raw = expr('raw', 'point(%s)' % ', '.join('$[%d]' % i for i in range(D)), D, lambda x: {i: v for i, v in enumerate(list(x)[:D])})

            def dist(x, y):
                r = RV(0)
                for i in x:
                    d = x[i] - y[i]
                    r = r + d * d
                return {0: -(r * RV(h))}
            out.append(call('P22', ns, 'sp(x, y)', [raw, raw], dist, 'distance', tu=ns + '_n'))
            out.append(call('P22', ns, 'gp(x, x)', [raw], lambda x: {}, 'null', tu=ns + '_n'))
            for a, b, v in (('no', 'no', 0), ('ni', 'ni', 0), ('no', 'ni', -1), ('ep', 'ep', 1), ('em', 'em', -1), ('ep', 'em', 0), ('e1', 'no', 0), ('e1', 'ni', 0)):
                out.append(call('P22', ns, 'sp(%s, %s)' % (a, b), [], lambda v=v: {0: RV(v)}, 'metric_%s_%s' % (a, b), tu=ns + '_n'))
        out.append(call('P22', ns, 'x', [edyn(n)], lambda x: x, 'e', tu=ns + '_n'))
        for k in range(1, n + 1):
            out.append(call('P22', ns, 'e(c<%d>)' % k, [], lambda k=k: {1 << (k - 1): RV(1)}, 'e%d' % k, tu=ns + '_n'))
    return uniq(out)
