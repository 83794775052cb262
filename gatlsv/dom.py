"""Value domains of the symbolic executor.

RealDom   doubles are mathematical reals: RV = numerator/denominator, each an exact rational or a z3 Real term.
ConcDom   the same values, but every number is an exact rational (used to replay an expectation on concrete inputs).
FPDom     doubles are IEEE-754 binary64 z3 terms (used for operations that may only copy or negate).
"""
import math
from fractions import Fraction
import z3

F0, F1 = Fraction(0), Fraction(1)


def is_c(x):
    return isinstance(x, (Fraction, int))


def to_z3(x):
    if isinstance(x, z3.ExprRef):
        return x
    return z3.RealVal(str(x))


def t_add(a, b):
    if is_c(a):
        if is_c(b):
            return a + b
        if a == 0:
            return b
    elif is_c(b) and b == 0:
        return a
    return to_z3(a) + to_z3(b)


def t_neg(a):
    if is_c(a):
        return -a
    return -a


def t_sub(a, b):
    if is_c(b) and b == 0:
        return a
    if is_c(a) and is_c(b):
        return a - b
    if is_c(a) and a == 0:
        return t_neg(b)
    if not is_c(a) and not is_c(b) and a.eq(b):
        return F0
    return to_z3(a) - to_z3(b)


def t_mul(a, b):
    if is_c(a):
        if is_c(b):
            return a * b
        if a == 0:
            return F0
        if a == 1:
            return b
        if a == -1:
            return -b
    elif is_c(b):
        return t_mul(b, a)
    return to_z3(a) * to_z3(b)


def t_eq(a, b):
    """equality of two terms: Python bool or z3 Bool"""
    if is_c(a) and is_c(b):
        return a == b
    if not is_c(a) and not is_c(b) and a.eq(b):
        return True
    return to_z3(a) == to_z3(b)


def t_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if is_c(a) and is_c(b):
        if a == b:
            return a
    elif not is_c(a) and not is_c(b) and a.eq(b):
        return a
    return z3.If(c, to_z3(a), to_z3(b))


# ---- booleans ---------------------------------------------------------------
def b_not(a):
    if a is True or a is False:
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def b_and(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def b_xor(a, b):
    if isinstance(a, bool):
        return b_not(b) if a else b
    if isinstance(b, bool):
        return b_not(a) if b else a
    return z3.Xor(a, b)


def b_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is True and b is False:
        return c
    if a is False and b is True:
        return b_not(c)
    if isinstance(a, bool) and isinstance(b, bool):
        return a
    if a is True:
        return b_or(c, b)
    if a is False:
        return b_and(b_not(c), b)
    if b is True:
        return b_or(b_not(c), a)
    if b is False:
        return b_and(c, a)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def bz(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


class RV:
    """A real number n/d.  d is 1 or a term the value is only meaningful for when non-zero."""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=F1):
        if isinstance(n, int):
            n = Fraction(n)
        self.n = n
        self.d = d

    def const(self):
        return is_c(self.n) and is_c(self.d)

    def value(self):
        return self.n / self.d

    def __add__(self, o):
        o = rv(o)
        if self.const() and self.n == 0 and self.d == 1:
            return o
        if o.const() and o.n == 0 and o.d == 1:
            return self
        if teq(self.d, o.d):
            return RV(t_add(self.n, o.n), self.d)
        return norm(t_add(t_mul(self.n, o.d), t_mul(o.n, self.d)), t_mul(self.d, o.d))
    __radd__ = __add__

    def __neg__(self):
        return RV(t_neg(self.n), self.d)

    def __sub__(self, o):
        o = rv(o)
        if teq(self.d, o.d):
            return RV(t_sub(self.n, o.n), self.d)
        return norm(t_sub(t_mul(self.n, o.d), t_mul(o.n, self.d)), t_mul(self.d, o.d))

    def __rsub__(self, o):
        return rv(o) - self

    def __mul__(self, o):
        o = rv(o)
        # n1/d1 * n2/d2 with n2 == d1 cancels
        if not is_c(self.d) and teq(self.d, o.n):
            return RV(self.n, o.d)
        if not is_c(o.d) and teq(o.d, self.n):
            return RV(o.n, self.d)
        return norm(t_mul(self.n, o.n), t_mul(self.d, o.d))
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = rv(o)
        return norm(t_mul(self.n, o.d), t_mul(self.d, o.n))

    def __rtruediv__(self, o):
        return rv(o) / self

    def __repr__(self):
        return 'RV(%s/%s)' % (self.n, self.d) if not (is_c(self.d) and self.d == 1) else 'RV(%s)' % (self.n,)


def teq(a, b):
    if is_c(a) or is_c(b):
        return is_c(a) and is_c(b) and a == b
    return a.eq(b)


def norm(n, d):
    if is_c(d) and d != 0:
        if is_c(n):
            return RV(n / d)
        if d != 1:
            return RV(t_mul(F1 / d, n))
        return RV(n)
    return RV(n, d)


def rv(x):
    if isinstance(x, RV):
        return x
    if isinstance(x, (int, Fraction)):
        return RV(Fraction(x))
    if isinstance(x, float):
        return RV(Fraction(x))
    if isinstance(x, z3.ExprRef):
        return RV(x)
    raise TypeError('not a real: %r' % (x,))


INF = float('inf')


class NonFinite(Exception):
    pass


class SpecialConst:
    """An infinity or NaN constant in real mode: only comparisons with it are meaningful."""
    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return 'Special(%r)' % self.f


class RealDom:
    mode = 'real'

    def __init__(self):
        self.sqrts = []     # (arg RV, var)
        self.ufs = []       # (fname, [args RV], var)
        self.axioms = []
        self.fresh_n = 0

    # -- constants and conversions
    def const(self, f):
        if isinstance(f, float) and (math.isinf(f) or math.isnan(f)):
            return SpecialConst(f)
        x = exact_const(f)
        if x.denominator > 1024 and 1e-4 < abs(x) < 1e4:
            # a square root folded by the compiler
            y = (x * x).limit_denominator(1000)
            if y != 0 and abs(y - x * x) <= x * x / 2 ** 49:
                r = self.sqrt(RV(y))
                return r if x > 0 else -r
        return RV(x)

    def fresh(self, name):
        self.fresh_n += 1
        return RV(z3.Real('%s!%d' % (name, self.fresh_n)))

    def ite(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if isinstance(a, SpecialConst) or isinstance(b, SpecialConst):
            if isinstance(a, SpecialConst) and isinstance(b, SpecialConst) and a.f == b.f:
                return a
            # a non-finite arm is a value with denominator zero: never equal to a reference
            a = RV(F1, to_z3(F0)) if isinstance(a, SpecialConst) else a
            b = RV(F1, to_z3(F0)) if isinstance(b, SpecialConst) else b
        if teq(a.d, b.d):
            return RV(t_ite(c, a.n, b.n), a.d)
        return RV(t_ite(c, a.n, b.n), t_ite(c, a.d, b.d))

    def _chk(self, *xs):
        for x in xs:
            if isinstance(x, SpecialConst):
                return True
        return False

    def bin(self, op, a, b):
        if self._chk(a, b):
            return RV(F1, to_z3(F0))
        if op == 'fadd':
            return a + b
        if op == 'fsub':
            return a - b
        if op == 'fmul':
            return a * b
        if op == 'fdiv':
            if b.const() and b.value() == 0:
                return RV(F1, to_z3(F0))
            return a / b
        raise NotImplementedError(op)

    def neg(self, a):
        if isinstance(a, SpecialConst):
            return SpecialConst(-a.f)
        return -a

    def cmp(self, pred, a, b):
        if self._chk(a, b):
            # finite value against inf/nan
            x = a.f if isinstance(a, SpecialConst) else 0.0
            y = b.f if isinstance(b, SpecialConst) else 0.0
            nan = math.isnan(x) or math.isnan(y)
            if pred == 'ord':
                return not nan
            if pred == 'uno':
                return nan
            if nan:
                return pred[0] == 'u'
            p = pred[1:]
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]
        if pred == 'ord' or pred == 'true':
            return True
        if pred == 'uno' or pred == 'false':
            return False
        p = pred[1:]
        return self.rel(p, a, b)

    def rel(self, p, a, b):
        a, b = rv(a), rv(b)
        if a.const() and b.const():
            x, y = a.value(), b.value()
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]
        if p == 'eq':
            return t_eq(t_mul(a.n, b.d), t_mul(b.n, a.d))
        if p == 'ne':
            return b_not(t_eq(t_mul(a.n, b.d), t_mul(b.n, a.d)))
        if is_c(a.d) and is_c(b.d):
            x, y = a.n, b.n
        else:
            # n1/d1 < n2/d2  <=>  n1*d1*d2^2 < n2*d2*d1^2
            if teq(a.d, b.d):
                x, y = t_mul(a.n, a.d), t_mul(b.n, b.d)
            else:
                x = t_mul(t_mul(a.n, a.d), t_mul(b.d, b.d))
                y = t_mul(t_mul(b.n, b.d), t_mul(a.d, a.d))
        x, y = to_z3(x), to_z3(y)
        return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]

    def canon(self, t):
        if is_c(t):
            return t
        t = z3.simplify(t, som=True, sort_sums=True)
        if z3.is_rational_value(t):
            return t.as_fraction()
        return t

    def same(self, a, b):
        """cheap semantic equality of two RVs (used to recognise equal arguments of uninterpreted functions)"""
        d = self.canon(t_sub(t_mul(a.n, b.d), t_mul(b.n, a.d)))
        return is_c(d) and d == 0

    def sqrt(self, x):
        x = rv(x)
        if not is_c(x.d):
            # sqrt(n/d) = sqrt(n*d)/|d|
            return self.sqrt(RV(t_mul(x.n, x.d))) / self.fabs(RV(x.d))
        n = self.canon(x.n if x.d == 1 else t_mul(F1 / x.d, x.n))
        if is_c(n):
            if n >= 0:
                r = isqrt(n)
                if r is not None:
                    return RV(r)
                # sqrt(p/q) = (k/q) sqrt(m), p q = k^2 m
                m, k, q = n.numerator * n.denominator, 1, n.denominator
                for p in range(2, 100):
                    while m % (p * p) == 0:
                        m //= p * p
                        k *= p
                if (m, 1) != (n.numerator, n.denominator):
                    return self.sqrt(RV(Fraction(m))) * Fraction(k, q)
            else:
                return RV(F1, to_z3(F0))
        n = RV(n)
        for a, v in self.sqrts:
            if self.same(a, n):
                return RV(v)
        self.fresh_n += 1
        v = z3.Real('sqrt!%d' % self.fresh_n)
        self.sqrts.append((n, v))
        self.axioms.append(z3.Implies(to_z3(n.n) >= 0, z3.And(v >= 0, v * v == to_z3(n.n))))
        return RV(v)

    def fabs(self, x):
        x = rv(x)
        if x.const():
            return RV(abs(x.value()))
        if not is_c(x.d):
            return self.fabs(RV(x.n)) / self.fabs(RV(x.d))
        n = to_z3(x.n)
        return norm(z3.If(n >= 0, n, -n), x.d)

    def uf(self, name, *args):
        args = [rv(a) for a in args]
        if name == 'sqrt':
            return self.sqrt(args[0])
        if name == 'fabs':
            return self.fabs(args[0])
        if name == 'pow':
            return self.pow(*args)
        args = [RV(self.canon(a.n), self.canon(a.d)) for a in args]
        if len(args) == 1 and args[0].const():
            x = args[0].value()
            exact = {('sin', 0): 0, ('cos', 0): 1, ('tan', 0): 0, ('exp', 0): 1, ('log', 1): 0, ('sinh', 0): 0, ('cosh', 0): 1, ('cbrt', 0): 0, ('cbrt', 1): 1, ('tanh', 0): 0}
            if (name, x) in exact:
                return RV(Fraction(exact[(name, x)]))
        for f, a, v in self.ufs:
            if f == name and len(a) == len(args) and all(self.same(p, q) for p, q in zip(a, args)):
                return RV(v)
            if (f, name) in (('log', 'exp'), ('exp', 'log')) and self.same(args[0], RV(v)):
                return a[0]
        self.fresh_n += 1
        v = z3.Real('%s!%d' % (name, self.fresh_n))
        # congruence with earlier applications
        for f, a, w in self.ufs:
            if f == name and len(a) == len(args):
                self.axioms.append(z3.Implies(z3.And(*[bz(self.rel('eq', p, q)) for p, q in zip(a, args)]), w == v))
        self.ufs.append((name, args, v))
        if name == 'exp':
            self.axioms.append(v > 0)
        if name == 'cosh':
            self.axioms.append(v >= 1)
        if name == 'cbrt':
            d = to_z3(args[0].d)
            ax = d * v * v * v == to_z3(args[0].n)
            self.axioms.append(ax if is_c(args[0].d) else z3.Implies(d != 0, ax))
        return RV(v)

    def pow(self, x, e):
        if e.const():
            k = e.value()
            if k.denominator == 1 and abs(k) <= 24:
                k = int(k)
                r = RV(F1)
                for _ in range(abs(k)):
                    r = r * x
                return r if k >= 0 else RV(F1) / r
            if k.denominator == 2 and abs(k.numerator) <= 24:
                s = self.sqrt(x)
                r = RV(F1)
                for _ in range(abs(k.numerator)):
                    r = r * s
                return r if k >= 0 else RV(F1) / r
            if k.denominator in (3, 9) and abs(k.numerator) <= 12:
                s = self.uf('cbrt', x)
                if k.denominator == 9:
                    s = self.uf('cbrt', s)
                r = RV(F1)
                for _ in range(abs(k.numerator)):
                    r = r * s
                return r if k >= 0 else RV(F1) / r
        x = RV(self.canon(x.n), self.canon(x.d))
        e = RV(self.canon(e.n), self.canon(e.d))
        for f, a, v in self.ufs:
            if f == 'pow' and self.same(a[0], x) and self.same(a[1], e):
                return RV(v)
        self.fresh_n += 1
        v = z3.Real('pow!%d' % self.fresh_n)
        self.ufs.append(('pow', [x, e], v))
        if is_c(x.d) and is_c(e.d):
            X, E = (to_z3(q.n) if q.d == 1 else to_z3(q.n) / to_z3(q.d) for q in (x, e))
            self.axioms += [z3.Implies(E == 1, v == X), z3.Implies(E == 2, v == X * X), z3.Implies(E == 3, v == X * X * X), z3.Implies(E == 4, v == X * X * X * X), z3.Implies(E == 6, v == X * X * X * X * X * X), z3.Implies(X > 0, v > 0)]
        return RV(v)


def exact_const(f):
    """a constant the compiler rounded to binary64, read as the fraction it stands for (1/3, 2/3, ...)"""
    x = Fraction(f)
    if x.denominator > 1024:
        y = x.limit_denominator(1000)
        if y != 0 and abs(y - x) <= abs(x) / 2 ** 51:
            return y
    return x


def isqrt(n):
    a, b = math.isqrt(n.numerator), math.isqrt(n.denominator)
    if a * a == n.numerator and b * b == n.denominator:
        return Fraction(a, b)
    return None


class ConcDom(RealDom):
    """Every value is an exact rational; irrational functions are rounded to binary64."""
    mode = 'conc'

    def sqrt(self, x):
        x = rv(x)
        v = x.value()
        if v < 0:
            return RV(F1, F0)
        r = isqrt(v)
        return RV(r if r is not None else Fraction(math.sqrt(v)))

    def uf(self, name, *args):
        args = [rv(a) for a in args]
        if name == 'sqrt':
            return self.sqrt(args[0])
        if name == 'fabs':
            return RV(abs(args[0].value()))
        if name == 'pow':
            e = args[1].value()
            if e.denominator == 1 and abs(e) <= 24 and (e >= 0 or args[0].value() != 0):
                return RealDom.pow(self, *args)
            return RV(Fraction(math.pow(float(args[0].value()), float(e))))
        f = {'cbrt': (lambda v: math.copysign(abs(v) ** (1 / 3), v))}.get(name) or getattr(math, name)
        return RV(Fraction(f(*[float(a.value()) for a in args])))


RNE = z3.RNE()
FP = z3.Float64()


class FPDom:
    mode = 'fp'

    def __init__(self):
        self.axioms = []
        self.fresh_n = 0

    def const(self, f):
        return z3.FPVal(float(f), FP)

    def fresh(self, name):
        self.fresh_n += 1
        return z3.FP('%s!%d' % (name, self.fresh_n), FP)

    def ite(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if a.eq(b):
            return a
        return z3.If(c, a, b)

    def bin(self, op, a, b):
        # multiplication by +-1 and addition to -0.0 are exact for every operand, as the compiler itself folds them
        if op == 'fadd':
            return z3.fpAdd(RNE, a, b)
        if op == 'fsub':
            return z3.fpSub(RNE, a, b)
        if op == 'fmul':
            return z3.fpMul(RNE, a, b)
        if op == 'fdiv':
            return z3.fpDiv(RNE, a, b)
        raise NotImplementedError(op)

    def neg(self, a):
        return z3.fpNeg(a)

    def cmp(self, pred, a, b):
        if pred == 'true' or pred == 'false':
            return pred == 'true'
        nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if pred == 'uno':
            return nan
        if pred == 'ord':
            return z3.Not(nan)
        p = pred[1:]
        r = {'eq': lambda: z3.fpEQ(a, b), 'ne': lambda: z3.Not(z3.fpEQ(a, b)), 'lt': lambda: z3.fpLT(a, b),
             'le': lambda: z3.fpLEQ(a, b), 'gt': lambda: z3.fpGT(a, b), 'ge': lambda: z3.fpGEQ(a, b)}[p]()
        if pred[0] == 'o':
            return z3.And(r, z3.Not(nan))
        return z3.Or(r, nan)

    def uf(self, name, *args):
        if name == 'fabs':
            return z3.fpAbs(args[0])
        if name == 'sqrt':
            return z3.fpSqrt(RNE, args[0])
        raise NotImplementedError(name + ' in binary64 mode')
