"""Numeric evaluation of term DAGs: multi-precision (mpmath) and binary64."""
import math

import mpmath
from mpmath import mpf

from terms import *
import terms as tm


class Undef(Exception):
    pass


def _fmod(a, b):
    if b == 0:
        raise Undef
    q = a / b
    n = mpmath.floor(q) if q >= 0 else mpmath.ceil(q)
    return a - n * b


def ev(order, env, prec=113, snap=None):
    """Evaluate terms (topologically ordered) at one point.

    env: variable name -> python float / int / bool.  Values of undefined
    terms (division by zero, root of a negative number, ...) are None."""
    out = {}
    with mpmath.workprec(prec):
        for t in order:
            out[t.id] = one(t, out, env, snap)
    return out


def one(t, out, env, snap):
    op = t.op
    if op == "c":
        if t.sort == "F":
            x = fval(t)
            if x != x or math.isinf(x):
                return None
            return snap(x) if snap else mpf(x)
        return t.aux
    if op == "v":
        v = env.get(t.aux)
        if t.sort == "F" and v is not None:
            return snap(v) if snap and math.isfinite(v) else mpf(v)
        return v
    if op == "undef":
        return None
    a = [out[x.id] for x in t.args]
    if op == "ite":
        if a[0] is None:
            return None
        return a[1] if a[0] else a[2]
    if op == "and":
        if any(x is False for x in a):
            return False
        return None if any(x is None for x in a) else True
    if op == "or":
        if any(x is True for x in a):
            return True
        return None if any(x is None for x in a) else False
    for x in a:
        if x is None:
            return None
    try:
        return _op(t, op, a)
    except (Undef, ZeroDivisionError, ValueError, OverflowError):
        return None


def _real(x):
    if isinstance(x, mpmath.mpc) or not mpmath.isfinite(x):
        raise Undef
    return x


def _op(t, op, a):
    if op == "fadd":
        return a[0] + a[1]
    if op == "fsub":
        return a[0] - a[1]
    if op == "fmul":
        return a[0] * a[1]
    if op == "fdiv":
        return a[0] / a[1]
    if op == "fneg":
        return -a[0]
    if op == "fabs":
        return abs(a[0])
    if op == "fpowi":
        return _real(a[0] ** t.aux)
    if op == "froot":
        if a[0] < 0:
            raise Undef
        return mpmath.root(a[0], t.aux)
    if op == "fsqrt":
        if a[0] < 0:
            raise Undef
        return mpmath.sqrt(a[0])
    if op == "fpow":
        if a[0] < 0:
            raise Undef
        return _real(a[0] ** a[1])
    if op == "fsin":
        return mpmath.sin(a[0])
    if op == "fcos":
        return mpmath.cos(a[0])
    if op == "fatan2":
        return mpmath.atan2(a[0], a[1])
    if op == "frem":
        return _fmod(a[0], a[1])
    if op == "fmaxn":
        return max(a)
    if op == "fminn":
        return min(a)
    if op == "ffloor":
        return mpmath.floor(a[0])
    if op == "fceil":
        return mpmath.ceil(a[0])
    if op == "ftrunc":
        return mpmath.floor(a[0]) if a[0] >= 0 else mpmath.ceil(a[0])
    if op == "fround":
        return mpmath.floor(a[0] + 0.5) if a[0] >= 0 else mpmath.ceil(a[0] - 0.5)
    if op == "flt":
        return bool(a[0] < a[1])
    if op == "fle":
        return bool(a[0] <= a[1])
    if op == "feq":
        return bool(a[0] == a[1])
    if op == "fnan":
        return False
    if op == "fsign":
        return bool(a[0] < 0)
    if op == "not":
        return not a[0]
    if op == "eq":
        return a[0] == a[1]
    if op == "ult":
        return a[0] < a[1]
    n = t.args[0].sort
    if op == "slt":
        return sgn(a[0], n) < sgn(a[1], n)
    if op == "add":
        return (sum(a) + t.aux) & ((1 << t.sort) - 1)
    if op == "mulc":
        return (a[0] * t.aux) & ((1 << t.sort) - 1)
    if op == "mul":
        return (a[0] * a[1]) & ((1 << t.sort) - 1)
    if op == "zext":
        return int(a[0])
    if op == "sext":
        return (sgn(int(a[0]), n) if n != "B" else -int(a[0])) & ((1 << t.sort) - 1)
    if op == "extract":
        hi, lo = t.aux
        return (a[0] >> lo) & ((1 << (hi - lo + 1)) - 1)
    if op == "concat":
        r = 0
        for x, y in zip(t.args, a):
            r = (r << x.sort) | y
        return r
    if op in ("sitofp", "uitofp"):
        return mpf(sgn(a[0], n) if op == "sitofp" else a[0])
    if op in ("fptosi", "fptoui"):
        m = t.sort
        lo, hi = (0, (1 << m) - 1) if op == "fptoui" else (-(1 << (m - 1)), (1 << (m - 1)) - 1)
        v = int(a[0])
        return max(lo, min(hi, v)) & ((1 << m) - 1)
    if op == "tab":
        return t.aux[a[0]] if a[0] < len(t.aux) else 0
    if op in ("udiv", "urem", "sdiv", "srem", "band", "bor", "bxor", "shl", "lshr", "ashr"):
        r = tm._binfold(op, a[0], a[1], t.sort)
        if r is None:
            raise Undef
        return r
    raise Undef
