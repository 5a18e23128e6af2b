"""Translation of terms to z3 and query bookkeeping."""
import json
import os
import select
import signal
import time
from fractions import Fraction

import z3

from terms import *
import terms as tm
import symex


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0

    def add(self, r, dt):
        self.queries += 1
        self.time += dt
        if r == z3.sat:
            self.sat += 1
        elif r == z3.unsat:
            self.unsat += 1
        else:
            self.unknown += 1


STATS = Stats()


def check(solver, timeout_ms=None):
    if timeout_ms:
        solver.set("timeout", timeout_ms)
    t = time.time()
    try:
        r = solver.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS.add(r, time.time() - t)
    return r


def forked(fn, seconds):
    """Runs fn() -> str in a forked child; None when it fails or overruns.
    Nonlinear preprocessing does not always honour the solver's own timeout."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.write(wr, fn().encode())
        except BaseException:
            pass
        os._exit(0)
    os.close(wr)
    got = b""
    end = time.time() + seconds
    while True:
        if not select.select([rd], [], [], max(0.0, end - time.time()))[0]:
            break
        x = os.read(rd, 65536)
        if not x:
            break
        got += x
    os.close(rd)
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    return got.decode() or None


def check_hard(solver, timeout_ms):
    t = time.time()

    def go():
        solver.set("timeout", timeout_ms)
        return str(solver.check())

    got = forked(go, timeout_ms / 1000.0 + 0.5)
    r = {"unsat": z3.unsat, "sat": z3.sat}.get(got, z3.unknown)
    STATS.add(r, time.time() - t)
    return r


def model_hard(solver, timeout_ms, read):
    """read(model) -> json value, or None when no model is found."""
    t = time.time()

    def go():
        solver.set("timeout", timeout_ms)
        if solver.check() != z3.sat:
            return ""
        return json.dumps(read(solver.model()))

    got = forked(go, timeout_ms / 1000.0 + 0.5)
    STATS.add(z3.sat if got else z3.unknown, time.time() - t)
    return json.loads(got) if got else None


def frac(x):
    f = Fraction(x)
    return z3.RealVal(f.numerator) / z3.RealVal(f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)


def rv(x):
    f = Fraction(x)
    return z3.RatVal(f.numerator, f.denominator)


class Conv:
    """float mode 'abs': floats are reals, only linear operations interpreted,
    everything else an opaque real constant per distinct term.
    float mode 'fp': exact IEEE binary64 for + - * / comparisons and conversions.
    float mode 'uf': opaque values with congruence (bits as BV64)."""

    def __init__(self, mode="abs"):
        self.mode = mode
        self.memo = {}
        self.vars = {}
        self.side = []  # constraints that define auxiliary constants
        self.split = False  # one function per leading variable (weaker congruence)
        self.ufs = {}

    def __call__(self, t):
        return self.conv(t)

    def conv(self, root):
        for t in tm.topo([root]):
            if t.id not in self.memo:
                self.memo[t.id] = self.one(t)
        return self.memo[root.id]

    def sort(self, s):
        if s == "B":
            return z3.BoolSort()
        if s == "F":
            return z3.FPSort(11, 53) if self.mode == "fp" else z3.BitVecSort(64) if self.mode == "uf" else z3.RealSort()
        return z3.BitVecSort(s)

    def opaque(self, t):
        return z3.Const("o!%d" % t.id, self.sort(t.sort))

    def one(self, t):
        op = t.op
        a = [self.memo[x.id] for x in t.args]
        if op == "c":
            if t.sort == "B":
                return z3.BoolVal(t.aux)
            if t.sort == "F":
                if self.mode == "uf":
                    return z3.BitVecVal(t.aux, 64)
                if self.mode == "fp":
                    return z3.fpBVToFP(z3.BitVecVal(t.aux, 64), z3.FPSort(11, 53))
                x = fval(t)
                if x != x or x in (float("inf"), float("-inf")):
                    return z3.Real("special!%x" % t.aux)
                return rv(x)
            return z3.BitVecVal(t.aux, t.sort)
        if op == "v":
            v = z3.Const(t.aux, self.sort(t.sort))
            self.vars[t.aux] = v
            return v
        if op == "undef":
            return self.opaque(t)
        if op == "not":
            return z3.Not(a[0])
        if op == "and":
            return z3.And(*a)
        if op == "or":
            return z3.Or(*a)
        if op == "ite":
            return z3.If(a[0], a[1], a[2])
        if op == "eq":
            return a[0] == a[1]
        if op == "ult":
            return z3.ULT(a[0], a[1])
        if op == "slt":
            return a[0] < a[1]
        if op == "add":
            r = None
            for x in a:
                r = x if r is None else r + x
            if t.aux:
                r = r + z3.BitVecVal(t.aux, t.sort)
            return r
        if op == "mulc":
            return a[0] * z3.BitVecVal(t.aux, t.sort)
        if op == "mul":
            return a[0] * a[1]
        if op == "udiv":
            return z3.UDiv(a[0], a[1])
        if op == "urem":
            return z3.URem(a[0], a[1])
        if op == "sdiv":
            return a[0] / a[1]
        if op == "srem":
            return z3.SRem(a[0], a[1])
        if op == "band":
            return a[0] & a[1]
        if op == "bor":
            return a[0] | a[1]
        if op == "bxor":
            return a[0] ^ a[1]
        if op == "shl":
            return a[0] << a[1]
        if op == "lshr":
            return z3.LShR(a[0], a[1])
        if op == "ashr":
            return a[0] >> a[1]
        if op == "extract":
            return z3.Extract(t.aux[0], t.aux[1], a[0])
        if op == "concat":
            return z3.Concat(*a)
        if op == "zext":
            return z3.ZeroExt(t.sort - t.args[0].sort, a[0])
        if op == "sext":
            return z3.SignExt(t.sort - t.args[0].sort, a[0])
        if op == "tab":
            vals = t.aux
            n = t.args[0].sort
            r = z3.BitVecVal(0, t.sort)
            groups = {}
            for i, v in enumerate(vals):
                groups.setdefault(v, []).append(i)
            for v, idx in groups.items():
                if v == 0:
                    continue
                r = z3.If(z3.Or(*[a[0] == z3.BitVecVal(i, n) for i in idx]), z3.BitVecVal(v, t.sort), r)
            return r
        if op == "uf":
            return self.func(t.aux, t)(*a) if a else z3.Const("uf!" + t.aux, self.sort(t.sort))
        return self.flt(t, a)

    def func(self, name, t):
        key = (name, t.sort, tuple(x.sort for x in t.args))
        if self.split:
            key += (min(vars_of(t), default=""),)
        f = self.ufs.get(key)
        if f is None:
            f = self.ufs[key] = z3.Function("uf!%s!%d" % (name, len(self.ufs)), *([self.sort(x.sort) for x in t.args] + [self.sort(t.sort)]))
        return f

    def flt_uf(self, t, a):
        """every floating-point operation an uninterpreted function of its operands' bits"""
        if t.op in ("f2bits", "bits2f"):
            return a[0]
        f = self.func("%s!%s" % (t.op, t.aux), t)
        if t.op in ("fadd", "fmul", "feq"):
            # commutative: operands in a canonical order
            c = z3.ULE(a[0], a[1])
            return f(z3.If(c, a[0], a[1]), z3.If(c, a[1], a[0]))
        return f(*a)

    def flt(self, t, a):
        if self.mode == "uf":
            return self.flt_uf(t, a)
        if self.mode == "fp":
            return self.flt_fp(t, a)
        op = t.op
        if op == "fadd":
            return a[0] + a[1]
        if op == "fsub":
            return a[0] - a[1]
        if op == "fneg":
            return -a[0]
        if op == "fabs":
            return z3.If(a[0] < 0, -a[0], a[0])
        if op == "fmul" and (is_c(t.args[0]) or is_c(t.args[1])):
            return a[0] * a[1]
        if op == "fdiv" and is_c(t.args[1]) and fval(t.args[1]) != 0:
            return a[0] / a[1]
        if op == "flt":
            return self.cmp(t, a, lambda x, y: x < y)
        if op == "fle":
            return self.cmp(t, a, lambda x, y: x <= y)
        if op == "feq":
            return self.cmp(t, a, lambda x, y: x == y)
        if op == "fsign":
            return a[0] < 0
        if op == "fnan":
            return z3.BoolVal(False)
        return self.opaque(t)

    def cmp(self, t, a, f):
        inf = float("inf")
        x, y = t.args
        if is_c(x) and fval(x) in (inf, -inf) or is_c(y) and fval(y) in (inf, -inf):
            xv = fval(x) if is_c(x) else 0.0
            yv = fval(y) if is_c(y) else 0.0
            return z3.BoolVal(bool(f(xv, yv)))
        return f(a[0], a[1])

    def flt_fp(self, t, a):
        op = t.op
        rm = z3.RNE()
        if op == "fadd":
            return z3.fpAdd(rm, a[0], a[1])
        if op == "fsub":
            return z3.fpSub(rm, a[0], a[1])
        if op == "fmul":
            return z3.fpMul(rm, a[0], a[1])
        if op == "fdiv":
            return z3.fpDiv(rm, a[0], a[1])
        if op == "fneg":
            return z3.fpNeg(a[0])
        if op == "fabs":
            return z3.fpAbs(a[0])
        if op == "fsqrt":
            return z3.fpSqrt(rm, a[0])
        if op == "flt":
            return z3.fpLT(a[0], a[1])
        if op == "fle":
            return z3.fpLEQ(a[0], a[1])
        if op == "feq":
            return z3.fpEQ(a[0], a[1])
        if op == "fnan":
            return z3.fpIsNaN(a[0])
        if op == "fsign":
            # sign of NaN is left unconstrained
            return z3.If(z3.fpIsNaN(a[0]), z3.Bool("nansign!%d" % t.id), z3.fpIsNegative(a[0]))
        if op in ("ffloor", "fceil", "ftrunc", "fround"):
            m = {"ffloor": z3.RTN(), "fceil": z3.RTP(), "ftrunc": z3.RTZ(), "fround": z3.RNA()}[op]
            return z3.fpRoundToIntegral(m, a[0])
        if op == "sitofp":
            return z3.fpSignedToFP(rm, a[0], z3.FPSort(11, 53))
        if op == "uitofp":
            return z3.fpUnsignedToFP(rm, a[0], z3.FPSort(11, 53))
        if op in ("fptosi", "fptoui"):
            n = t.sort
            lo, hi = (0, (1 << n) - 1) if op == "fptoui" else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
            S = z3.FPSort(11, 53)
            cv = z3.fpToUBV(z3.RTZ(), a[0], z3.BitVecSort(n)) if op == "fptoui" else z3.fpToSBV(z3.RTZ(), a[0], z3.BitVecSort(n))
            # saturation thresholds are exactly representable for n in {32, 64} on the low side
            top = z3.FPVal(float(2 ** (n if op == "fptoui" else n - 1)), S)
            bot = z3.FPVal(float(lo), S)
            return z3.If(
                z3.fpIsNaN(a[0]),
                z3.BitVecVal(0, n),
                z3.If(z3.fpGEQ(a[0], top), z3.BitVecVal(hi, n), z3.If(z3.fpLEQ(a[0], bot), z3.BitVecVal(lo, n), cv)),
            )
        if op == "bits2f":
            return z3.fpBVToFP(a[0], z3.FPSort(11, 53))
        return self.opaque(t)


_feas_cache = {}


def feasible(pc, timeout=3000):
    """Cheap feasibility of a path condition (over-approximate: unknown -> True)."""
    key = tuple(p.id for p in pc)
    r = _feas_cache.get(key)
    if r is None:
        s = z3.Solver()
        cv = Conv("abs")
        for p in pc:
            s.add(cv(p))
        r = check(s, timeout) != z3.unsat
        _feas_cache[key] = r
    return r


_vars_of = {}


def vars_of(t):
    for x in tm.topo([t]):
        if x.id not in _vars_of:
            _vars_of[x.id] = frozenset([x.aux]) if x.op == "v" else frozenset().union(*[_vars_of[y.id] for y in x.args])
    return _vars_of[t.id]


def feasible_near(pc, timeout=2000):
    """Feasibility of the conjuncts over the variables of the last one
    (over-approximate: the rest of the path condition is dropped)."""
    if not pc:
        return True
    vs = vars_of(pc[-1])
    return feasible(tuple(p for p in pc if vars_of(p) <= vs), timeout)


def pool(jobs, seconds, workers=6, log=None):
    """Runs the functions () -> str in forked children, several at a time;
    None for those that fail or overrun."""
    res = [None] * len(jobs)
    buf = {}
    running = {}  # fd -> (index, pid, end)
    todo = list(range(len(jobs)))[::-1]
    while todo or running:
        while todo and len(running) < workers:
            i = todo.pop()
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.write(wr, jobs[i]().encode())
                except BaseException as e:
                    os.write(wr, ("error: %s: %s" % (type(e).__name__, e)).encode())
                os._exit(0)
            os.close(wr)
            running[rd] = (i, pid, time.time() + seconds)
            buf[rd] = b""
        now = time.time()
        wait = max(0.0, min(e for _, _, e in running.values()) - now)
        ready = select.select(list(running), [], [], wait)[0]
        for fd in list(running):
            i, pid, end = running[fd]
            if fd in ready:
                x = os.read(fd, 1 << 20)
                if x:
                    buf[fd] += x
                    continue
                res[i] = buf[fd].decode()
            elif time.time() < end:
                continue
            os.close(fd)
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
            del running[fd]
            if log:
                log(i, res[i])
    for r in res:
        if r and r.startswith("error: "):
            raise RuntimeError(r)
    return res
