"""Independent reference model of geometric algebra: blades as sorted index lists, metric as a symmetric matrix.

Nothing here is derived from GATL: products of basis blades come from the Clifford relations only."""
from fractions import Fraction
from functools import lru_cache
from .dom import RV, rv, b_and, b_or


def bits(m):
    r = []
    i = 0
    while m:
        if m & 1:
            r.append(i)
        m >>= 1
        i += 1
    return r


def grade(m):
    return len(bits(m))


def sort_sign(seq):
    """sign of the permutation sorting seq, 0 when an index repeats"""
    seq = list(seq)
    if len(set(seq)) != len(seq):
        return 0
    s = 1
    for i in range(len(seq)):
        for j in range(i + 1, len(seq)):
            if seq[i] > seq[j]:
                s = -s
    return s


def mask(seq):
    r = 0
    for i in seq:
        r |= 1 << i
    return r


class Algebra:
    def __init__(self, n, metric):
        """metric: list of n squares, or a full symmetric matrix"""
        self.n = n
        self.N = 1 << n
        if metric and not isinstance(metric[0], (list, tuple)):
            metric = [[Fraction(metric[i]) if i == j else Fraction(0) for j in range(n)] for i in range(n)]
        self.g = [[Fraction(x) for x in row] for row in metric]
        self.orthogonal = all(self.g[i][j] == 0 for i in range(n) for j in range(n) if i != j)
        self._gp = {}

    # --- basis blade products: dict blade -> Fraction
    def b_op(self, a, b):
        s = sort_sign(bits(a) + bits(b))
        return {} if s == 0 else {a | b: Fraction(s)}

    def vec_lc(self, i, b):
        """e_i contracted onto basis blade b"""
        out = {}
        bs = bits(b)
        for k, j in enumerate(bs):
            if self.g[i][j] != 0:
                m = b & ~(1 << j)
                out[m] = out.get(m, Fraction(0)) + (-1) ** k * self.g[i][j]
        return out

    def vec_gp(self, i, b):
        out = dict(self.vec_lc(i, b))
        for m, c in self.b_op(1 << i, b).items():
            out[m] = out.get(m, Fraction(0)) + c
        return out

    def b_gp(self, a, b):
        r = self._gp.get((a, b))
        if r is not None:
            return r
        if a == 0:
            r = {b: Fraction(1)}
        else:
            i = bits(a)[0]
            rest = a & ~(1 << i)        # a = e_i ^ rest = e_i rest - e_i . rest
            r = {}
            for m, c in self.b_gp(rest, b).items():
                for k, d in self.vec_gp(i, m).items():
                    r[k] = r.get(k, Fraction(0)) + c * d
            for m, c in self.vec_lc(i, rest).items():
                for k, d in self.b_gp(m, b).items():
                    r[k] = r.get(k, Fraction(0)) - c * d
            r = {k: c for k, c in r.items() if c != 0}
        self._gp[(a, b)] = r
        return r

    def b_part(self, a, b, g):
        return {k: c for k, c in self.b_gp(a, b).items() if grade(k) == g}

    def b_lcont(self, a, b):
        return self.b_part(a, b, grade(b) - grade(a))

    def b_rcont(self, a, b):
        return self.b_part(a, b, grade(a) - grade(b))

    def b_dot(self, a, b):
        return self.b_part(a, b, abs(grade(a) - grade(b)))

    def b_hip(self, a, b):
        return {} if a == 0 or b == 0 else self.b_dot(a, b)

    def b_sp(self, a, b):
        return self.b_part(a, b, 0)

    def b_rp(self, a, b):
        """regressive product: A^C v C^B = (A^C^B / I) C"""
        c = a & b
        if grade(a) + grade(b) - grade(c) != self.n:
            return {}
        a1, b1 = bits(a & ~c), bits(b & ~c)
        s = sort_sign(a1 + bits(c)) * sort_sign(bits(c) + b1) * sort_sign(a1 + bits(c) + b1)
        return {c: Fraction(s)}

    def b_cp(self, a, b):
        out = {}
        for k, c in self.b_gp(a, b).items():
            out[k] = out.get(k, Fraction(0)) + c / 2
        for k, c in self.b_gp(b, a).items():
            out[k] = out.get(k, Fraction(0)) - c / 2
        return {k: c for k, c in out.items() if c}

    # --- multivectors: dict blade -> RV
    def prod(self, f, x, y):
        out = {}
        for a, p in x.items():
            for b, q in y.items():
                t = f(a, b)
                if not t:
                    continue
                pq = p * q
                for k, c in t.items():
                    v = pq * c
                    out[k] = out[k] + v if k in out else v
        return out

    def gp(self, x, y):
        return self.prod(self.b_gp, x, y)

    def op(self, x, y):
        return self.prod(self.b_op, x, y)

    def lcont(self, x, y):
        return self.prod(self.b_lcont, x, y)

    def rcont(self, x, y):
        return self.prod(self.b_rcont, x, y)

    def dot(self, x, y):
        return self.prod(self.b_dot, x, y)

    def hip(self, x, y):
        return self.prod(self.b_hip, x, y)

    def rp(self, x, y):
        return self.prod(self.b_rp, x, y)

    def cp(self, x, y):
        return self.prod(self.b_cp, x, y)

    def sp(self, x, y):
        r = self.prod(self.b_sp, x, y)
        return r.get(0, RV(0))

    def sp_mv(self, x, y):
        return {0: self.sp(x, y)}

    def rnorm_sqr(self, x):
        return self.sp(x, self.reverse(x))

    def scale(self, s, x):
        return {k: rv(s) * v for k, v in x.items()}

    def signs(self, x, f):
        return {k: (v if f(grade(k)) > 0 else -v) for k, v in x.items()}

    def reverse(self, x):
        return self.signs(x, lambda g: 1 if g % 4 in (0, 1) else -1)

    def involute(self, x):
        return self.signs(x, lambda g: 1 if g % 2 == 0 else -1)

    def conjugate(self, x):
        return self.signs(x, lambda g: 1 if g % 4 in (0, 3) else -1)

    @staticmethod
    def add(x, y):
        out = dict(x)
        for k, v in y.items():
            out[k] = out[k] + v if k in out else v
        return out

    @staticmethod
    def sub(x, y):
        out = dict(x)
        for k, v in y.items():
            out[k] = out[k] - v if k in out else -v
        return out

    @staticmethod
    def neg(x):
        return {k: -v for k, v in x.items()}

    def take(self, x, g):
        return {k: v for k, v in x.items() if grade(k) == g}

    def inv(self, x):
        """versor inverse: reverse / squared reverse norm"""
        r = self.rnorm_sqr(x)
        return {k: v / r for k, v in self.reverse(x).items()}

    def pseudoscalar(self):
        return {self.N - 1: RV(1)}

    def full(self, vals):
        return {k: v for k, v in enumerate(vals)}

    def kvec(self, vals, g):
        ks = [k for k in range(self.N) if grade(k) == g]
        return dict(zip(ks, vals))

    def blades(self, g):
        return [k for k in range(self.N) if grade(k) == g]

    def wedge(self, *xs):
        r = {0: RV(1)}
        for x in xs:
            r = self.op(r, x)
        return r


def E(n):
    return Algebra(n, [1] * n)


def S(p, q, r=0):
    return Algebra(p + q + r, [1] * p + [-1] * q + [0] * r)


def conformal(n):
    """e1..en, then no (index n) and ni (index n+1): no.ni = -1"""
    d = n + 2
    g = [[1 if i == j and i < n else 0 for j in range(d)] for i in range(d)]
    g[n][n + 1] = g[n + 1][n] = -1
    return Algebra(d, g)


def minkowski(n):
    """e1..en, ep (+1), em (-1)"""
    return Algebra(n + 2, [1] * (n + 1) + [-1])


def homogeneous(n):
    return Algebra(n + 1, [1] * (n + 1))


def plane_based(n):
    """e1..en, e0 with square 0 (index n)"""
    return Algebra(n + 1, [1] * n + [0])
