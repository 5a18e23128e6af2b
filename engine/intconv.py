"""z3 translation with integers for bit vectors and reals for floats.

Every rounded floating-point operation becomes its exact value plus an error
variable bounded by half an ulp of the largest magnitude the operation can
have (interval analysis); truncation, remainders and conversions are exact."""
import math
from fractions import Fraction

import z3

import smt
import terms as tm
from terms import *

INF = math.inf
U = Fraction(1, 2 ** 53)


class NoBound(Exception):
    pass


def rat(x):
    f = Fraction(x)
    return z3.RatVal(f.numerator, f.denominator)


class IntConv:
    def __init__(self, leaves=None, ranges=None):
        """leaves: term id -> (z3 expression, lo, hi) for abstracted terms"""
        self.memo = {}
        self.bmemo = {}
        self.leaves = leaves or {}
        self.vars = {}
        self.side = []
        self.n = 0
        for i, (e, lo, hi) in self.leaves.items():
            self.memo[i] = e
            self.bmemo[i] = (Fraction(lo), Fraction(hi))
        self.ranges = ranges or {}

    # -------------------------------------------------------------- bounds
    def bounds(self, t):
        r = self.bmemo.get(t.id)
        if r is None:
            r = self.bmemo[t.id] = self._bounds(t)
        return r

    def _bounds(self, t):
        op = t.op
        B = self.bounds
        if t.sort == "F":
            if op == "c":
                x = fval(t)
                if x != x or math.isinf(x):
                    raise NoBound("special constant")
                return (Fraction(x), Fraction(x))
            if op in ("fadd", "fsub", "fmul"):
                if op == "fsub" and t.args[1].op == "ftrunc" and t.args[1].args[0] is t.args[0]:
                    lo, hi = B(t.args[0])
                    return (Fraction(0) if lo >= 0 else Fraction(-1), Fraction(0) if hi <= 0 else Fraction(1))
                (a, b), (c, d) = B(t.args[0]), B(t.args[1])
                v = {"fmul": [a * c, a * d, b * c, b * d], "fadd": [a + c, b + d], "fsub": [a - d, b - c]}[op]
                return self.wide(min(v), max(v))
            if op == "fdiv":
                (a, b), (c, d) = B(t.args[0]), B(t.args[1])
                if c <= 0 <= d:
                    raise NoBound("division by an interval around zero")
                v = [a / c, a / d, b / c, b / d]
                return self.wide(min(v), max(v))
            if op == "fneg":
                a, b = B(t.args[0])
                return (-b, -a)
            if op == "fabs":
                a, b = B(t.args[0])
                return (Fraction(0) if a <= 0 <= b else min(abs(a), abs(b)), max(abs(a), abs(b)))
            if op in ("ftrunc", "ffloor", "fceil", "fround"):
                a, b = B(t.args[0])
                return (Fraction(math.floor(a)), Fraction(math.ceil(b)))
            if op == "ite":
                (a, b), (c, d) = B(t.args[1]), B(t.args[2])
                return (min(a, c), max(b, d))
            if op == "uitofp":
                a, b = B(t.args[0])
                return self.wide(a, b)
            if op == "sitofp":
                n = t.args[0].sort
                a, b = self.sbounds(t.args[0])
                return self.wide(a, b)
            if op == "v" and t.aux in self.ranges:
                a, b = self.ranges[t.aux]
                return (Fraction(a), Fraction(b))
            raise NoBound(op)
        full = (1 << t.sort) - 1
        if op == "v" and t.aux in self.ranges:
            a, b = self.ranges[t.aux]
            if a >= 0:
                return (Fraction(a), Fraction(b))
        if op in ("fptoui", "fptosi"):
            try:
                a, b = B(t.args[0])
                if a >= 0 and b <= full >> 1:
                    return (Fraction(math.floor(a)), Fraction(math.floor(b)))
            except NoBound:
                pass
            return (Fraction(0), Fraction(full))
        if op == "zext" and t.args[0].sort != "B":
            return B(t.args[0])
        if op == "ite":
            (a, b), (c, d) = B(t.args[1]), B(t.args[2])
            return (min(a, c), max(b, d))
        if op == "add":
            lo = hi = Fraction(t.aux)
            for c, y in tm.lin_items(t):
                a, b = B(y)
                lo += c * a
                hi += c * b
            if hi <= full:
                return (lo, hi)
        if op == "urem" and is_c(t.args[1]) and t.args[1].aux:
            a, b = B(t.args[0])
            if b < t.args[1].aux:
                return (a, b)
        if op == "udiv" and is_c(t.args[1]) and t.args[1].aux:
            a, b = B(t.args[0])
            return (Fraction(math.floor(a / t.args[1].aux)), Fraction(math.floor(b / t.args[1].aux)))
        if op == "concat":
            lo = hi = Fraction(0)
            for x in t.args:
                a, b = B(x)
                lo, hi = lo * 2 ** x.sort + a, hi * 2 ** x.sort + b
            return (lo, hi)
        if op == "extract":
            a, b = B(t.args[0])
            if b < 2 ** (t.aux[0] + 1):
                return (Fraction(int(a) >> t.aux[1]), Fraction(int(b) >> t.aux[1]))
        if op == "sext":
            a, b = B(t.args[0])
            if b < 2 ** (t.args[0].sort - 1):
                return (a, b)
        if op == "mulc" and t.aux * B(t.args[0])[1] <= full:
            a, b = B(t.args[0])
            return (t.aux * a, t.aux * b)
        if op == "srem" and is_c(t.args[1]) and t.args[1].aux:
            a, b = self.sbounds(t.args[0])
            if a >= 0:
                return (Fraction(0), min(b, Fraction(abs(tm.sgn(t.args[1].aux, t.sort)) - 1)))
        if op == "tab":
            a, b = B(t.args[0])
            v = t.aux[int(a):int(b) + 1] or (0,)
            return (Fraction(min(v)), Fraction(max(v)))
        return (Fraction(0), Fraction(tm._umax(t)))

    def sbounds(self, t):
        """signed bounds of an integer term, following signed arithmetic"""
        n = t.sort
        half = 1 << (n - 1)
        lo, hi = self.bounds(t)
        if hi < half:
            return (lo, hi)
        if lo >= half:
            return (lo - 2 * half, hi - 2 * half)
        if t.op == "v" and t.aux in self.ranges:
            a, b = self.ranges[t.aux]
            return (Fraction(a), Fraction(b))
        if t.op == "add":
            a = b = Fraction(tm.sgn(t.aux, n))
            for c, y in tm.lin_items(t):
                c = tm.sgn(c, n)
                p, q = self.sbounds(y)
                a += min(c * p, c * q)
                b += max(c * p, c * q)
            if a >= -half and b < half:
                return (a, b)
        if t.op == "mulc":
            c = tm.sgn(t.aux, n)
            p, q = self.sbounds(t.args[0])
            a, b = min(c * p, c * q), max(c * p, c * q)
            if a >= -half and b < half:
                return (a, b)
        if t.op == "sext":
            return self.sbounds(t.args[0])
        if t.op == "ite":
            (a, b), (c, d) = self.sbounds(t.args[1]), self.sbounds(t.args[2])
            return (min(a, c), max(b, d))
        if t.op == "sdiv" and is_c(t.args[1]) and t.args[1].aux not in (0, (1 << n) - 1):
            c = tm.sgn(t.args[1].aux, n)
            a, b = self.sbounds(t.args[0])
            v = [math.trunc(a / c), math.trunc(b / c)]
            return (Fraction(min(v)), Fraction(max(v)))
        if t.op == "srem" and is_c(t.args[1]) and t.args[1].aux:
            c = abs(tm.sgn(t.args[1].aux, n))
            a, b = self.sbounds(t.args[0])
            return (max(a, Fraction(1 - c)) if a < 0 else Fraction(0), min(b, Fraction(c - 1)) if b > 0 else Fraction(0))
        return (Fraction(-half), Fraction(half - 1))

    @staticmethod
    def wide(a, b):
        # rounding may move a bound outwards by half an ulp
        m = max(abs(a), abs(b)) * U * 2
        return (a - m if a != 0 else a, b + m if b != 0 else b)

    # -------------------------------------------------------------- conversion
    def __call__(self, root):
        for t in tm.topo([root]):
            if t.id not in self.memo:
                self.memo[t.id] = self.one(t)
        return self.memo[root.id]

    def opaque(self, t):
        self.n += 1
        name = "op!%d" % t.id
        if t.sort == "B":
            return z3.Bool(name)
        if t.sort == "F":
            return z3.Real(name)
        v = z3.Int(name)
        self.side += [v >= 0, v < 2 ** t.sort]
        return v

    def rounded(self, t, exact):
        lo, hi = self.bounds(t)
        m = max(abs(lo), abs(hi))
        e = z3.Real("err!%d" % t.id)
        b = m * U
        self.side += [e <= rat(b), e >= rat(-b)]
        return exact + e

    def signed(self, t):
        """z3 integer of the signed value"""
        n = t.sort
        lo, hi = self.sbounds(t)
        x = self.memo[t.id] if t.id in self.memo else self(t)
        half = 1 << (n - 1)
        if is_c(t):
            return z3.IntVal(tm.sgn(t.aux, n))
        if self.bounds(t)[1] < half:
            return x
        # exact signed arithmetic when it cannot wrap
        if lo > -half or hi < half - 1:
            if t.op == "v" and t.aux in self.ranges:
                return self.vars[t.aux]
            if t.op == "add":
                r = z3.IntVal(tm.sgn(t.aux, n))
                for c, y in tm.lin_items(t):
                    r = r + tm.sgn(c, n) * self.signed(y)
                return r
            if t.op == "mulc":
                return tm.sgn(t.aux, n) * self.signed(t.args[0])
            if t.op == "sext":
                return self.signed(t.args[0])
            if t.op == "ite":
                return z3.If(self(t.args[0]), self.signed(t.args[1]), self.signed(t.args[2]))
            if t.op == "sdiv" and is_c(t.args[1]) and t.args[1].aux:
                return tdiv(self.signed(t.args[0]), tm.sgn(t.args[1].aux, n))
            if t.op == "srem" and is_c(t.args[1]) and t.args[1].aux:
                s, c = self.signed(t.args[0]), tm.sgn(t.args[1].aux, n)
                return s - c * tdiv(s, c)
        return z3.If(x >= half, x - 2 * half, x)

    def wrap(self, t, v):
        lo, hi = self.bounds(t)
        return v

    def one(self, t):
        try:
            return self._one(t)
        except NoBound:
            return self.opaque(t)

    def _one(self, t):
        op, n = t.op, t.sort
        a = [self.memo[x.id] for x in t.args]
        if op == "c":
            if n == "B":
                return z3.BoolVal(t.aux)
            if n == "F":
                x = fval(t)
                if x != x or math.isinf(x):
                    return self.opaque(t)
                return rat(x)
            return z3.IntVal(t.aux)
        if op == "v":
            if n == "B":
                v = z3.Bool(t.aux)
            elif n == "F":
                v = z3.Real(t.aux)
                if t.aux in self.ranges:
                    lo, hi = self.ranges[t.aux]
                    self.side += [v >= rat(lo), v <= rat(hi)]
            else:
                v = z3.Int(t.aux)
                lo, hi = self.ranges.get(t.aux, (0, 2 ** n - 1))
                self.side += [v >= lo, v <= hi]
                self.vars[t.aux] = v
                return v if lo >= 0 else z3.If(v < 0, v + 2 ** n, v)
            self.vars[t.aux] = v
            return v
        if op == "not":
            return z3.Not(a[0])
        if op == "and":
            return z3.And(*a)
        if op == "or":
            return z3.Or(*a)
        if op == "ite":
            return z3.If(a[0], a[1], a[2])
        if op == "eq":
            return a[0] == a[1]
        if op == "ult":
            return a[0] < a[1]
        if op == "slt":
            return self.signed(t.args[0]) < self.signed(t.args[1])
        if n == "F" or op in ("flt", "fle", "feq", "fnan", "fsign"):
            return self.flt(t, a)
        M = 1 << n if isinstance(n, int) else 0
        if op == "add":
            full = Fraction(t.aux) + sum(c * self.bounds(y)[1] for c, y in tm.lin_items(t))
            if full < M:
                r = z3.IntVal(t.aux)
                for c, y in tm.lin_items(t):
                    r = r + c * self.memo_of(y)
                return r
            r = z3.IntVal(tm.sgn(t.aux, n))
            for c, y in tm.lin_items(t):
                r = r + tm.sgn(c, n) * self.memo_of(y)
            return r % M
        if op == "mulc":
            if t.aux * self.bounds(t.args[0])[1] < M:
                return t.aux * a[0]
            return (tm.sgn(t.aux, n) * a[0]) % M
        if op == "zext":
            return z3.If(a[0], 1, 0) if t.args[0].sort == "B" else a[0]
        if op == "sext":
            s = self.signed(t.args[0])
            return z3.If(s < 0, s + M, s)
        if op == "extract":
            hi, lo = t.aux
            x = a[0] if lo == 0 else a[0] / (1 << lo)
            return x if self.bounds(t.args[0])[1] < (1 << (hi + 1)) else x % M
        if op == "concat":
            r = z3.IntVal(0)
            for x, y in zip(a, t.args):
                r = r * (1 << y.sort) + x
            return r
        if op in ("udiv", "urem") and is_c(t.args[1]) and t.args[1].aux:
            return a[0] / t.args[1].aux if op == "udiv" else a[0] % t.args[1].aux
        if op in ("sdiv", "srem") and is_c(t.args[1]) and t.args[1].aux:
            s, c = self.signed(t.args[0]), tm.sgn(t.args[1].aux, n)
            q = tdiv(s, c)
            r = q if op == "sdiv" else s - c * q
            return z3.If(r < 0, r + M, r)
        if op == "shl" and is_c(t.args[1]) and t.args[1].aux < n:
            return (a[0] * (1 << t.args[1].aux)) % M
        if op == "lshr" and is_c(t.args[1]) and t.args[1].aux < n:
            return a[0] / (1 << t.args[1].aux)
        if op == "ashr" and is_c(t.args[1]) and t.args[1].aux < n:
            r = self.signed(t.args[0]) / (1 << t.args[1].aux)
            return z3.If(r < 0, r + M, r)
        if op == "band":
            for x, y in ((0, 1), (1, 0)):
                if is_c(t.args[y]):
                    return mask(a[x], t.args[y].aux, n)
        if op == "bor":
            for x, y in ((0, 1), (1, 0)):
                k = int(self.bounds(t.args[y])[1]).bit_length()
                if zeros(t.args[x]) >= k:
                    return a[x] + a[y]
        if op in ("fptoui", "fptosi"):
            self.bounds(t.args[0])  # only bounded (hence finite) operands
            q = ftrunc(a[0])
            lo, hi = (0, M - 1) if op == "fptoui" else (-(M // 2), M // 2 - 1)
            v = z3.If(q < lo, lo, z3.If(q > hi, hi, q))
            return v if op == "fptoui" else z3.If(v < 0, v + M, v)
        if op == "tab":
            return table(a[0], t.aux, *self.bounds(t.args[0]))
        return self.opaque(t)

    def memo_of(self, y):
        return self.memo[y.id] if y.id in self.memo else self(y)

    def flt(self, t, a):
        op = t.op
        if op == "fsub" and t.args[1].op == "ftrunc" and t.args[1].args[0] is t.args[0]:
            return a[0] - a[1]
        if op == "fadd":
            return self.rounded(t, a[0] + a[1])
        if op == "fsub":
            return self.rounded(t, a[0] - a[1])
        if op == "fmul" and (is_c(t.args[0]) or is_c(t.args[1])):
            return self.rounded(t, a[0] * a[1])
        if op == "fdiv" and is_c(t.args[1]) and fval(t.args[1]) != 0:
            return self.rounded(t, a[0] / a[1])
        if op == "fneg":
            return -a[0]
        if op == "fabs":
            return z3.If(a[0] < 0, -a[0], a[0])
        if op == "ftrunc":
            return z3.ToReal(ftrunc(a[0]))
        if op == "ffloor":
            return z3.ToReal(z3.ToInt(a[0]))
        if op == "fceil":
            return z3.ToReal(-z3.ToInt(-a[0]))
        if op == "fround":
            h = z3.RealVal("1/2")
            return z3.ToReal(z3.If(a[0] >= 0, z3.ToInt(a[0] + h), -z3.ToInt(-a[0] + h)))
        if op in ("uitofp", "sitofp"):
            x = z3.ToReal(a[0] if op == "uitofp" else self.signed(t.args[0]))
            lo, hi = self.bounds(t.args[0]) if op == "uitofp" else self.sbounds(t.args[0])
            return x if max(abs(lo), abs(hi)) <= 2 ** 53 else self.rounded(t, x)
        if op == "flt":
            return a[0] < a[1]
        if op == "fle":
            return a[0] <= a[1]
        if op == "feq":
            return a[0] == a[1]
        if op == "fnan":
            self.bounds(t.args[0])
            return z3.BoolVal(False)
        return self.opaque(t)


def ftrunc(x):
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def tdiv(s, c):
    """division truncating towards zero"""
    if c < 0:
        return -tdiv(s, -c)
    return z3.If(s >= 0, s / c, -((-s) / c))


def table(x, vals, lo, hi):
    """lookup by runs of equal values, as a balanced tree"""
    lo, hi = int(max(lo, 0)), int(min(hi, len(vals) - 1))
    runs = []
    for i in range(lo, hi + 1):
        if not runs or runs[-1][1] != vals[i]:
            runs.append((i, vals[i]))

    def tree(r):
        if len(r) == 1:
            return z3.IntVal(r[0][1])
        m = len(r) // 2
        return z3.If(x < r[m][0], tree(r[:m]), tree(r[m:]))

    return tree(runs) if runs else z3.IntVal(0)


def zeros(t):
    """lower bound of the number of trailing zero bits"""
    if t.op == "c":
        return (t.aux & -t.aux).bit_length() - 1 if t.aux else t.sort
    if t.op == "shl" and is_c(t.args[1]):
        return min(t.sort, zeros(t.args[0]) + t.args[1].aux)
    if t.op == "mulc":
        return (t.aux & -t.aux).bit_length() - 1 + zeros(t.args[0])
    if t.op == "add":
        z = zeros(bv(t.aux, t.sort))
        for c, y in tm.lin_items(t):
            z = min(z, (c & -c).bit_length() - 1 + zeros(y))
        return z
    if t.op == "ite":
        return min(zeros(t.args[1]), zeros(t.args[2]))
    if t.op == "concat":
        z = 0
        for p in reversed(t.args):
            if is_c(p) and p.aux == 0:
                z += p.sort
            else:
                return z
        return z
    if t.op == "band":
        return max(zeros(t.args[0]), zeros(t.args[1]))
    if t.op in ("zext", "sext"):
        return zeros(t.args[0]) if t.args[0].sort != "B" else 0
    if t.op == "bor":
        return min(zeros(t.args[0]), zeros(t.args[1]))
    return 0


def mask(x, m, n):
    """x & m by runs of ones"""
    r = z3.IntVal(0)
    i = 0
    while i < n:
        if m >> i & 1:
            j = i
            while j < n and m >> j & 1:
                j += 1
            y = x if i == 0 else x / (1 << i)
            if j < n:
                y = y % (1 << (j - i))
            r = r + y * (1 << i)
            i = j
        else:
            i += 1
    return r
