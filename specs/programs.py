"""Generator of compound programs: C++ text together with its meaning in the reference algebra."""
import random
from fractions import Fraction
from .common import *


class Prog:
    def __init__(self, code, f, size):
        self.code = code
        self.f = f
        self.size = size


BIN = ['gp', 'op', 'lcont', 'rcont', 'dot', 'hip', 'rp', 'sp', 'cp', 'add', 'sub']
UN = ['reverse', 'involute', 'conjugate', 'neg', 'scale']


def gen(rng, A, vars_, depth, bins=BIN, uns=UN):
    """random expression over the variables; every leaf is used through its name so that it can be eager or lazy"""
    if depth == 0 or (depth < 2 and rng.random() < 0.25):
        v = rng.choice(vars_)
        return Prog(v, lambda env, v=v: env[v], 1)
    if rng.random() < 0.22:
        op = rng.choice(uns)
        a = gen(rng, A, vars_, depth - 1, bins, uns)
        if op == 'neg':
            return Prog('(-%s)' % a.code, lambda env: A.neg(a.f(env)), a.size)
        if op == 'scale':
            k = rng.choice([2, 3, -1, -2])
            return Prog('(c<%d> * %s)' % (k, a.code), lambda env: A.scale(k, a.f(env)), a.size)
        return Prog('%s(%s)' % (op, a.code), lambda env: getattr(A, op)(a.f(env)), a.size)
    op = rng.choice(bins)
    a = gen(rng, A, vars_, depth - 1, bins, uns)
    b = gen(rng, A, vars_, depth - 1, bins, uns)
    if op in ('add', 'sub'):
        return Prog('(%s %s %s)' % (a.code, '+' if op == 'add' else '-', b.code), lambda env: getattr(A, op)(a.f(env), b.f(env)), a.size + b.size)
    rn = 'sp_mv' if op == 'sp' else op
    return Prog('%s(%s, %s)' % (op, a.code, b.code), lambda env: getattr(A, rn)(a.f(env), b.f(env)), a.size + b.size)


def rename(code, sub):
    import re
    return re.sub(r'\b([xyz])\b', lambda m: sub.get(m.group(1), m.group(1)), code)


def lazy_code(code, vars_):
    sub = {v: v + '1' for v in vars_}
    return 'auto [lazy, %s] = make_lazy_context_tuple(%s);\n    gsv::out(o, lazy.eval(%s));' % (', '.join(sub[v] for v in vars_), ', '.join(vars_), rename(code, sub))


def lazy_partial_code(code, lazy, direct):
    """the operands in direct are used as they are, not through the lazy context"""
    sub = {v: v + '1' for v in lazy}
    return 'auto [lazy, %s] = make_lazy_context_tuple(%s);\n    gsv::out(o, lazy.eval(%s));' % (', '.join(sub[v] for v in lazy), ', '.join(lazy), rename(code, sub))


def lazy_nested_code(outer, inner, vars_):
    """outer uses $ for the inner program, which is evaluated in its own lazy context"""
    sub = {v: v + '1' for v in vars_}
    sub2 = {v: v + '2' for v in vars_}
    pars = ', '.join('auto const &' + v for v in vars_)
    return ('auto inner = [](%s) { auto [lazy2, %s] = make_lazy_context_tuple(%s); return lazy2.eval(%s); };\n'
            '    auto [lazy, %s] = make_lazy_context_tuple(%s);\n    gsv::out(o, lazy.eval(%s));') % (
        pars, ', '.join(sub2[v] for v in vars_), ', '.join(vars_), rename(inner, sub2),
        ', '.join(sub[v] for v in vars_), ', '.join(vars_), rename(outer, sub).replace('$', 'inner(%s)' % ', '.join(sub[v] for v in vars_)))
