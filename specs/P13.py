"""Algebraic simplification of scalar expressions never changes their value."""
import math
from .programs import *

BOUNDS = ('generated expressions of up to 8 operations (+, -, *, /, integer powers) over three run-time scalars and rational constants, evaluated step by step and lazily, '
          'plus listed expressions with square roots, cube roots, absolute values and transcendental functions; every scalar an arbitrary real in the domain of the expression')


def divide(env, a, b):
    env['nonzero'].append(b)
    return a / b


def sgen(rng, vars_, depth):
    """(C++ text, function of env -> RV)"""
    r = rng.random()
    if depth == 0 or r < 0.1:
        if rng.random() < 0.7:
            v = rng.choice(vars_)
            return v, lambda env: env[v]
        k = rng.choice([1, 2, 3, -1, -2, 4, 6])
        return 'c<%d>' % k, lambda env: RV(k)
    if r < 0.22:
        a, f = sgen(rng, vars_, depth - 1)
        k = rng.choice([2, 3, -1, -2, 4, 0] if depth > 1 else [2, 3])
        if k <= 0 and a.startswith('c<'):
            k = 2

        def pw(env):
            b = f(env)
            if k < 0:
                env['nonzero'].append(b)
            v = RV(1)
            for _ in range(abs(k)):
                v = v * b
            return v if k >= 0 else RV(1) / v
        return 'pow(%s, c<%d>)' % (a, k), pw
    if r < 0.30:
        a, f = sgen(rng, vars_, depth - 1)
        return '(-%s)' % a, lambda env: -f(env)
    op = rng.choice('+-*/*+')
    a, f = sgen(rng, vars_, depth - 1)
    b, g = sgen(rng, vars_, depth - 1)
    fn = {'+': lambda env: f(env) + g(env), '-': lambda env: f(env) - g(env), '*': lambda env: f(env) * g(env), '/': lambda env: divide(env, f(env), g(env))}[op]
    return '(%s %s %s)' % (a, op, b), fn


def undefined(f, kinds):
    """whether the expression divides by something identically zero (or the probe says so)"""
    for q in (0, 1):
        env = {'x': RV(Fraction(7 + q, 3)), 'y': RV(Fraction(-5 - q, 7)), 'z': RV(Fraction(11, 13 + q)), 'nonzero': []}
        for v, k in zip('xyz', kinds):
            if k.label.startswith('c_'):
                env[v] = k.ref(None, v)[0][1][0]
        try:
            f(env)
            if any(d.d == 0 or d.n == 0 for d in env['nonzero']):
                return True
        except ZeroDivisionError:
            return True
    return False


def lz(code):
    return lazy_code(code, 'xyz')


def cases(tier):
    rng = random.Random(13)
    out = []
    cnt = 40 if tier == 'quick' else 240
    i = 0
    while i < cnt:
        code, f = sgen(rng, ['x', 'y', 'z'], 3)
        kinds = rng.choice([(scal(), scal(), scal()), (scal(), cnum(2), scal()), (scal(), scal(), cnum(-3))])
        if not any(v in code for v in 'xyz') or len(code) > 120 or undefined(f, kinds):
            continue
        i += 1
        fn = lambda x, y, z, f=f: {0: f({'x': x[0], 'y': y[0], 'z': z[0], 'nonzero': []})}

        def pre(c, x, y, z, f=f):
            env = {'x': x[0][1][0], 'y': y[0][1][0], 'z': z[0][1][0], 'nonzero': []}
            f(env)
            return [c.ne(RV(d.n), RV(0)) for d in env['nonzero']]
        for tag, text in (('eager', 'gsv::out(o, %s);' % code), ('lazy', lz(code))):
            out.append(call('P13', 'ga1e', text, list(kinds), fn, '%s%d' % (tag, i), tu='ga1e_%d' % (i // 8), pre=pre))
    pos = lambda c, *xs: [c.lt(RV(0), x[0][1][0]) for x in xs]
    nn = lambda c, *xs: [c.le(RV(0), x[0][1][0]) for x in xs]
    anyv = None
    S = lambda c: c

    pow6 = lambda v: v * v * v * v * v * v

    def special(tag, code, f, pre=None, nv=1, kinds=None, tu='sp', **kw):
        """f receives the context's function table and the scalars"""
        ops = kinds or [scal()] * nv
        names = ['x', 'y', 'z'][:nv]
        base = op_case('P13', tag, 'ga1e', ops, 'gsv::out(o, %s);' % code, None, 2, tu='ga1e_' + tu, pre=pre, **kw)
        lazy = op_case('P13', tag + '_lazy', 'ga1e', ops, lazy_code(code, ''.join(names)), None, 2, tu='ga1e_' + tu + 'l', pre=pre, **kw)
        for cs in (base, lazy):
            def post(c):
                xs = [o.ref(c, v)[0][1][0] for o, v in zip(ops, names)]
                c.eq('value', c.o('o')[0], f(c, *xs))
                c.eq('no vector part', c.o('o')[1], RV(0))
            cs.post = post
            out.append(cs)
    def near(tag, code, want):
        """the value is want * x up to the rounding of constants"""
        op = [scal()]
        for t, body in ((tag, 'gsv::out(o, %s);' % code), (tag + '_lazy', lazy_code(code, 'x'))):
            def post(c):
                x = op[0].ref(c, 'x')[0][1][0]
                d, eps = c.o('o')[0] - RV(Fraction(want)) * x, RV(Fraction(1, 10 ** 9)) * c.abs(x) * RV(1 + abs(Fraction(want)))
                c.true('value', c.le(c.abs(d), eps), (str(c.o('o')[0]), str(want)))
            cs = op_case('P13', t, 'ga1e', op, body, None, 2, tu='ga1e_const')
            cs.post = post
            out.append(cs)
    sq = lambda c, v: c.sqrt(v)
    special('sqrt_sq', 'sqrt(x * x)', lambda c, x: c.abs(x))
    special('sqrt_pow2', 'sqrt(pow(x, c<2>))', lambda c, x: c.abs(x))
    special('sq_sqrt', 'pow(sqrt(x), c<2>)', lambda c, x: x, nn)
    special('sqrtsqrt', 'sqrt(x) * sqrt(x)', lambda c, x: x, nn)
    special('sqrt_x4', 'sqrt(pow(x, c<4>))', lambda c, x: x * x)
    special('sqrt_x3', 'sqrt(x * x * x)', lambda c, x: sq(c, x) * x, pos)
    special('sqrt_c', 'sqrt(c<9> * x)', lambda c, x: RV(3) * sq(c, x), nn)
    special('sqrt_quart', 'sqrt(x / c<4>)', lambda c, x: sq(c, x) / RV(2), nn)
    special('sqrt_xy', 'sqrt(x * y)', lambda c, x, y: sq(c, x * y), lambda c, x, y: [c.le(RV(0), x[0][1][0] * y[0][1][0])], 2)
    special('sqrt_x2y', 'sqrt(x * x * y)', lambda c, x, y: c.abs(x) * sq(c, y), lambda c, x, y: [c.le(RV(0), y[0][1][0])], 2)
    special('sqrt_ratio', 'sqrt(x / y)', lambda c, x, y: sq(c, x / y), lambda c, x, y: [c.lt(RV(0), x[0][1][0] * y[0][1][0])], 2)
    special('inv_sqrt', 'c<1> / sqrt(x)', lambda c, x: RV(1) / sq(c, x), pos)
    special('sqrt_sum', 'sqrt(x * x + y * y)', lambda c, x, y: sq(c, x * x + y * y), None, 2)
    special('sqrt_sumsq', 'pow(sqrt(x * x + y * y), c<2>) - x * x', lambda c, x, y: y * y, None, 2)
    special('norm_abs', 'sqrt(x * x) * y / abs(x)', lambda c, x, y: y, lambda c, x, y: [c.ne(x[0][1][0], RV(0))], 2)
    special('abs_abs', 'abs(abs(x) * y)', lambda c, x, y: c.abs(x) * c.abs(y), None, 2)
    special('abs_neg', 'abs(-x)', lambda c, x: c.abs(x))
    special('abs_sq', 'abs(x * x)', lambda c, x: x * x)
    special('abs_cube', 'abs(x * x * x)', lambda c, x: c.abs(x) * x * x)
    special('abs_prod', 'abs(c<-2> * x)', lambda c, x: c.abs(x) * RV(2))
    special('abs_sum', 'abs(x - y)', lambda c, x, y: c.abs(x - y), None, 2)
    special('abs_sqrt', 'abs(sqrt(x))', lambda c, x: sq(c, x), nn)
    special('abs_inv', 'abs(c<1> / x)', lambda c, x: RV(1) / c.abs(x), lambda c, x: [c.ne(x[0][1][0], RV(0))])
    special('sqabs', 'abs(x) * abs(x)', lambda c, x: x * x)
    special('cbrt', 'cbrt(x)', lambda c, x: c.fn('cbrt', x))
    special('cbrt3', 'pow(cbrt(x), c<3>)', lambda c, x: x)
    special('cbrtcube', 'cbrt(x * x * x)', lambda c, x: x)
    special('cbrtsq', 'pow(cbrt(x), c<2>)', lambda c, x: c.fn('cbrt', x) * c.fn('cbrt', x))
    special('cbrtcbrt', 'cbrt(x) * cbrt(x)', lambda c, x: c.fn('cbrt', x) * c.fn('cbrt', x))
    special('cbrtprod', 'cbrt(x * y)', lambda c, x, y: c.fn('cbrt', x * y), None, 2)
    special('cbrt_over', 'x / cbrt(x)', lambda c, x: c.fn('cbrt', x) * c.fn('cbrt', x), lambda c, x: [c.ne(x[0][1][0], RV(0))])
    special('cbrt_inv', 'c<1> / cbrt(x)', lambda c, x: RV(1) / c.fn('cbrt', x), lambda c, x: [c.ne(x[0][1][0], RV(0))])
    special('cbrt_times', 'x * cbrt(x)', lambda c, x: x * c.fn('cbrt', x))
    special('cbrt_cbrt', 'cbrt(cbrt(x))', lambda c, x: c.fn('cbrt', c.fn('cbrt', x)))
    special('cbrt_sq_sqrt', 'sqrt(cbrt(x) * cbrt(x))', lambda c, x: c.abs(c.fn('cbrt', x)))
    special('cbrt_c', 'cbrt(c<8> * x)', lambda c, x: c.fn('cbrt', x * RV(8)))
    for fn in ('sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'exp'):
        special('%s_poly' % fn, '%s(x * y + y * x)' % fn, lambda c, x, y, fn=fn: c.fn(fn, x * y * RV(2)), None, 2)
        special('%s_sum' % fn, '%s(x) * y + %s(x)' % (fn, fn), lambda c, x, y, fn=fn: c.fn(fn, x) * (y + RV(1)), None, 2)
        special('%s_sq' % fn, '%s(x) * %s(x) - pow(%s(x), c<2>) + y' % (fn, fn, fn), lambda c, x, y, fn=fn: y, None, 2)
        special('%s_abs' % fn, 'abs(%s(x))' % fn, lambda c, x, fn=fn: c.abs(c.fn(fn, x)))
        special('%s_zero' % fn, '%s(c<0>) + x' % fn, lambda c, x, fn=fn: x + RV({'cos': 1, 'cosh': 1, 'exp': 1}.get(fn, 0)))
    special('log', 'log(x) + log(y)', lambda c, x, y: c.fn('log', x) + c.fn('log', y), pos, 2)
    special('log_one', 'log(c<1>) + x', lambda c, x: x)
    special('pow_xy', 'pow(x, y)', lambda c, x, y: c.fn('pow', x, y), pos, 2)
    special('pow_0', 'pow(x, c<0>) + y', lambda c, x, y: RV(1) + y, lambda c, x, y: [c.ne(x[0][1][0], RV(0))], 2)
    special('pow_1', 'pow(x, c<1>)', lambda c, x: x)
    special('pow_m1', 'pow(x, c<-1>)', lambda c, x: RV(1) / x, lambda c, x: [c.ne(x[0][1][0], RV(0))])
    special('pow_cc', 'pow(c<2>, c<3>) * x + pow(c<2>, c<-2>) * x', lambda c, x: x * RV(Fraction(33, 4)))
    for a in (1, -1, 2, -6):
        for b in (1, -1, -5, 4, -6):
            special('quot_%s_%s' % (str(a).replace('-', 'm'), str(b).replace('-', 'm')), '(c<%d> / c<%d>) * x + c<%d> / c<%d>' % (a, b, b, a), lambda c, x, a=a, b=b: x * RV(Fraction(a, b)) + RV(Fraction(b, a)))
    # sign reasoning: absolute values and even roots of every kind of expression (lazily, since values are opaque otherwise)
    def signs(tag, t, f, pre, nv):
        def sp_(suffix, code, g, extra=None):
            if suffix in ('sqroot', 'rootcube') and tag in ('expneg', 'coshneg', 'negabs', 'negsq', 'negroot') or tag == 'powy' and not suffix.startswith('abs'):
                return
            pp = lambda c, *a: (pre(c, *a) if pre else []) + (extra(c, f(c, *[v[0][1][0] for v in a])) if extra else [])
            special('sg_%s_%s' % (tag, suffix), code.replace('T', t), lambda c, *a: g(c, f(c, *a)), pp, nv, tu='sg_' + suffix)
        sp_('abs', 'abs(T)', lambda c, v: c.abs(v))
        sp_('rootsq', 'sqrt((T) * (T))', lambda c, v: c.abs(v))
        sp_('rootpow', 'sqrt(pow(T, c<2>))', lambda c, v: c.abs(v))
        sp_('root4', 'sqrt(pow(T, c<4>))', lambda c, v: v * v)
        sp_('sqroot', 'pow(sqrt(T), c<2>)', lambda c, v: v, lambda c, v: [c.lt(RV(0), v)])
        sp_('rootcube', 'sqrt(pow(T, c<3>))', lambda c, v: c.sqrt(v) * v, lambda c, v: [c.lt(RV(0), v)])
        sp_('cuberoot', 'cbrt(pow(T, c<3>))', lambda c, v: v)
        sp_('absneg', 'abs(-(T))', lambda c, v: c.abs(v))
        sp_('absabs', 'abs(abs(T) * (T))', lambda c, v: v * v)
    P2 = lambda c, x, y: [c.lt(RV(0), x[0][1][0])]
    signs('x', 'x', lambda c, x: x, None, 1)
    signs('log', 'log(x)', lambda c, x: c.fn('log', x), pos, 1)
    signs('logabs', 'log(abs(x))', lambda c, x: c.fn('log', c.abs(x)), lambda c, x: [c.ne(x[0][1][0], RV(0))], 1)
    signs('logsq', 'log(x * x)', lambda c, x: c.fn('log', x * x), lambda c, x: [c.ne(x[0][1][0], RV(0))], 1)
    signs('logsum', 'log(abs(x) + y * y)', lambda c, x, y: c.fn('log', c.abs(x) + y * y), P2, 2)
    signs('logexp', 'log(exp(x))', lambda c, x: x, None, 1)
    signs('explog', 'exp(log(x))', lambda c, x: x, pos, 1)
    for fn in ('exp', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh'):
        signs(fn, fn + '(x)', lambda c, x, fn=fn: c.fn(fn, x), None, 1)
        signs(fn + 'abs', fn + '(abs(x))', lambda c, x, fn=fn: c.fn(fn, c.abs(x)), None, 1)
        signs(fn + 'sq', fn + '(x * x)', lambda c, x, fn=fn: c.fn(fn, x * x), None, 1)
        signs(fn + 'neg', '(-%s(x))' % fn, lambda c, x, fn=fn: -c.fn(fn, x), None, 1)
    signs('cube', '(x * x * x)', lambda c, x: x * x * x, None, 1)
    signs('negsq', '(-(x * x))', lambda c, x: -(x * x), None, 1)
    signs('negabs', '(-abs(x))', lambda c, x: -c.abs(x), None, 1)
    signs('xabsy', '(x * abs(y))', lambda c, x, y: x * c.abs(y), None, 2)
    signs('sqabsy', '(x * x * abs(y))', lambda c, x, y: x * x * c.abs(y), None, 2)
    signs('sqy', '(x * x * y)', lambda c, x, y: x * x * y, None, 2)
    signs('xysq', 'pow(x * y, c<2>)', lambda c, x, y: x * x * y * y, None, 2)
    signs('inv', '(c<1> / x)', lambda c, x: RV(1) / x, lambda c, x: [c.ne(x[0][1][0], RV(0))], 1)
    signs('invsq', '(c<1> / (x * x))', lambda c, x: RV(1) / (x * x), lambda c, x: [c.ne(x[0][1][0], RV(0))], 1)
    signs('ratio', '(x / y)', lambda c, x, y: x / y, lambda c, x, y: [c.ne(y[0][1][0], RV(0))], 2)
    signs('sqdiff', '(x * x - y * y)', lambda c, x, y: x * x - y * y, None, 2)
    signs('sqsum', '(x * x + y * y)', lambda c, x, y: x * x + y * y, None, 2)
    signs('abssum', '(abs(x) + y)', lambda c, x, y: c.abs(x) + y, None, 2)
    signs('absdiff', '(abs(x) - abs(y))', lambda c, x, y: c.abs(x) - c.abs(y), None, 2)
    signs('rootm1', '(sqrt(x) - c<1>)', lambda c, x: sq(c, x) - RV(1), nn, 1)
    signs('negroot', '(c<-2> * sqrt(x))', lambda c, x: sq(c, x) * RV(-2), nn, 1)
    signs('cbrt', 'cbrt(x)', lambda c, x: c.fn('cbrt', x), None, 1)
    signs('cbrtabs', 'cbrt(abs(x))', lambda c, x: c.fn('cbrt', c.abs(x)), None, 1)
    signs('cbrtsq', 'pow(cbrt(x), c<2>)', lambda c, x: c.fn('cbrt', x) * c.fn('cbrt', x), None, 1)
    signs('powy', 'pow(x, y)', lambda c, x, y: c.fn('pow', x, y), P2, 2)
    # y to an exponent that is a square: 1 for x = 1, so the power has the sign of y
    special('abs_powsq', 'abs(pow(y, pow(x, c<2>)))', lambda c, x, y: c.abs(y), lambda c, x, y: [c.same(x[0][1][0], RV(1)), c.ne(y[0][1][0], RV(0))], 2, samples=lambda rng: {'x_': [1.0], 'y_': [rng.choice([-3.0, -0.5, 2.0])]})
    # the exponent is an even number only at run time
    at2 = lambda c, x, y: [c.same(x[0][1][0], RV(2)), c.ne(y[0][1][0], RV(0))]
    smp = lambda rng: {'x_': [2.0], 'y_': [rng.choice([-3.0, -0.5, 2.0])]}
    special('root_pow_rt', 'sqrt(pow(y, x))', lambda c, x, y: c.abs(y), at2, 2, samples=smp)
    special('root_pow_rt2', 'pow(pow(y, x), c<3> / c<2>)', lambda c, x, y: c.abs(y) * y * y, at2, 2, samples=smp)
    special('pow_pow_rt', 'pow(pow(y, x), c<3>)', lambda c, x, y: pow6(y), at2, 2, samples=smp)
    special('root_pow_rtabs', 'sqrt(pow(abs(y), x))', lambda c, x, y: c.abs(y), at2, 2, samples=smp)
    special('root_powsq', 'sqrt(pow(pow(y, pow(x, c<2>)), c<2>))', lambda c, x, y: c.abs(y), lambda c, x, y: [c.same(x[0][1][0], RV(1)), c.ne(y[0][1][0], RV(0))], 2, samples=lambda rng: {'x_': [1.0], 'y_': [rng.choice([-3.0, -0.5, 2.0])]})
    special('pow_neg', 'pow(c<-1>, c<3>) * x + pow(c<-3>, c<2>) * x + pow(c<-2>, c<-1>) * x', lambda c, x: x * RV(Fraction(15, 2)))
    special('pow_negodd', 'pow(c<-2>, c<-3>) * x', lambda c, x: x * RV(Fraction(-1, 8)))
    special('pow_powodd', 'pow(pow(x, c<3>), c<2>)', lambda c, x: x * x * x * x * x * x)
    special('const_frac', '(c<1> / c<3> + c<1> / c<6>) * x', lambda c, x: x * RV(Fraction(1, 2)))
    special('const_frac2', '(c<2> / c<3>) * (c<9> / c<4>) * x - x / c<2>', lambda c, x: x)
    special('const_sqrt', 'sqrt(c<16>) * x - sqrt(c<1>) * x + sqrt(c<0>)', lambda c, x: RV(3) * x)
    # integer roots and powers are taken while compiling only where they are exact
    for k in (2, 3, 4, 5, 8, 15, 17, 24, 25, 26, 35, 36, 37, 48, 49, 50, 63, 64, 65, 80, 82, 99, 100, 101, 120, 122, 143, 144, 145, 168, 170, 1023, 1024, 1025, 9999, 10000, 10001):
        near('const_root%d' % k, 'sqrt(c<%d>) * x' % k, math.sqrt(k))
    for b in (-3, -2, -1, 2, 3, 7, 10):
        for e in (-3, -2, -1, 0, 2, 3, 4, 5):
            near('const_pow%s_%s' % (str(b).replace('-', 'm'), str(e).replace('-', 'm')), 'pow(c<%d>, c<%d>) * x' % (b, e), Fraction(b) ** e)
    # fractions of constants are reduced, and keep their sign
    for n in (-6, -4, -3, 4, 6, 9):
        for d in (-6, -4, -3, -1, 2, 6, 9):
            t = '%s_%s' % (str(n).replace('-', 'm'), str(d).replace('-', 'm'))
            near('const_frac' + t, '(c<%d> / c<%d>) * x' % (n, d), Fraction(n, d))
            near('const_fracrt' + t, '(x / c<%d>) * c<%d>' % (d, n), Fraction(n, d))
            near('const_fracsum' + t, 'x * pow(c<%d>, c<-1>) * c<%d> + (c<%d> / c<6>) * x' % (d, n, n), Fraction(n, d) + Fraction(n, 6))
    special('const_abs', 'abs(c<-5>) * x + abs(c<3>) * x', lambda c, x: RV(8) * x)
    special('const_frac_abs', 'abs(c<-1> / c<2>) * x', lambda c, x: x / RV(2))
    special('assoc', '(x + y) * (x - y) - x * x', lambda c, x, y: -(y * y), None, 2)
    special('frac_cancel', 'x / (x * y) * y', lambda c, x, y: RV(1), lambda c, x, y: [c.ne(x[0][1][0] * y[0][1][0], RV(0))], 2)
    special('nested_div', 'x / (y / x) / x', lambda c, x, y: x / y, lambda c, x, y: [c.ne(x[0][1][0] * y[0][1][0], RV(0))], 2)
    special('sum_inv', 'c<1> / (x + y) * (x + y)', lambda c, x, y: RV(1), lambda c, x, y: [c.ne(x[0][1][0] + y[0][1][0], RV(0))], 2)
    special('sum_sq_inv', '(x + y) / pow(x + y, c<2>)', lambda c, x, y: RV(1) / (x + y), lambda c, x, y: [c.ne(x[0][1][0] + y[0][1][0], RV(0))], 2)
    return out
